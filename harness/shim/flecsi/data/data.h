// Stand-in: the drivers only need the header to exist.
#pragma once
#include "data_client.h"

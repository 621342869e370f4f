// Stand-in for the only FleCSI class the tree topology derives from.
#pragma once
namespace flecsi { namespace data { class data_client_t {}; } }

// Initial data written with HDF5 itself (not through the simulated ranks).
#pragma once
#include <set>
#include <map>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#pragma push_macro("H5Fopen")
#pragma push_macro("H5Fclose")
#pragma push_macro("H5Gopen")
#pragma push_macro("H5Gclose")
#pragma push_macro("H5Dopen")
#pragma push_macro("H5Dclose")
#pragma push_macro("H5Dread")
#pragma push_macro("H5Dwrite")
#pragma push_macro("H5Dcreate")
#pragma push_macro("H5Aopen")
#pragma push_macro("H5Aclose")
#pragma push_macro("H5Fcreate")
#pragma push_macro("H5Gcreate")
#pragma push_macro("H5Acreate")
#pragma push_macro("H5Awrite")
#undef H5Fopen
#undef H5Fclose
#undef H5Gopen
#undef H5Gclose
#undef H5Dopen
#undef H5Dclose
#undef H5Dread
#undef H5Dwrite
#undef H5Dcreate
#undef H5Aopen
#undef H5Aclose
#undef H5Fcreate
#undef H5Gcreate
#undef H5Acreate
#undef H5Awrite
//! initial data as other tools write it, with some fields left out
static void write_initial(const std::string & file, const std::vector<body> & p, const std::set<std::string> & leave, int step = 0, const long long * iter = nullptr, double time = 0, double dt = 0, bool append = false) {
  hid_t f = append ? H5Fopen(file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT) : H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
  int dim = gdimension;
  hid_t one = H5Screate(H5S_SCALAR), a;
  if(!append) { a = H5Acreate2(f, "dimension", H5T_NATIVE_INT, one, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(a, H5T_NATIVE_INT, &dim); H5Aclose(a); }
  hid_t q = H5Gcreate2(f, ("/Step#" + std::to_string(step)).c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
  if(iter) { // as the programs write it
    auto att = [&](const char * n, hid_t t, const void * v) { a = H5Acreate2(q, n, t, one, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(a, t, v); H5Aclose(a); };
    att("iteration", H5T_NATIVE_LLONG, iter); att("time", H5T_NATIVE_DOUBLE, &time); att("timestep", H5T_NATIVE_DOUBLE, &dt);
  }
  hsize_t N = p.size();
  hid_t s = H5Screate_simple(1, &N, nullptr);
  auto put = [&](const char * n, hid_t t, const void * d) { if(leave.count(n)) return; hid_t x = H5Dcreate2(q, n, t, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(x, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, d); H5Dclose(x); };
  auto dbl = [&](const char * n, std::function<double(const body &)> get) { std::vector<double> v; for(auto & b : p) v.push_back(get(b)); put(n, H5T_NATIVE_DOUBLE, v.data()); };
  for(int d = 0; d < 3; ++d) { static const char * X[] = {"x", "y", "z"}, * V[] = {"vx", "vy", "vz"}; dbl(X[d], [d](const body & b) { return d < (int)gdimension ? b.coordinates()[d] : 0.0; }); dbl(V[d], [d](const body & b) { return d < (int)gdimension ? const_cast<body &>(b).getVelocity()[d] : 0.0; }); }
  dbl("m", [](const body & b) { return b.mass(); }); dbl("rho", [](const body & b) { return b.getDensity(); }); dbl("h", [](const body & b) { return b.radius(); });
  dbl("P", [](const body & b) { return b.getPressure(); }); dbl("u", [](const body & b) { return b.getInternalenergy(); }); dbl("dt", [](const body & b) { return const_cast<body &>(b).getDt(); });
  std::vector<int64_t> id; std::vector<int> ty, st;
  for(auto & b : p) { id.push_back(b.id()); ty.push_back(b.getType()); st.push_back(b.state()); }
  put("id", H5T_NATIVE_LLONG, id.data()); put("type", H5T_NATIVE_INT, ty.data()); put("state", H5T_NATIVE_INT, st.data());
  H5Sclose(s); H5Sclose(one); H5Gclose(q); H5Fclose(f);
}
//! one step of a snapshot file, in file order; false: the file or the step is not there
struct H5Step { long long iteration = -1; double time = 0, dt = 0; std::vector<long long> id; std::vector<int> type; std::map<std::string, std::vector<double>> f; };
static bool read_step(const std::string & file, int step, H5Step & s) {
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if(f < 0) return false;
  std::string name = "/Step#" + std::to_string(step);
  if(H5Lexists(f, name.c_str(), H5P_DEFAULT) <= 0) { H5Fclose(f); return false; }
  hid_t q = H5Gopen2(f, name.c_str(), H5P_DEFAULT);
  hid_t a = H5Aopen(q, "time", H5P_DEFAULT); if(a >= 0) { H5Aread(a, H5T_NATIVE_DOUBLE, &s.time); H5Aclose(a); }
  a = H5Aopen(q, "timestep", H5P_DEFAULT); if(a >= 0) { H5Aread(a, H5T_NATIVE_DOUBLE, &s.dt); H5Aclose(a); }
  a = H5Aopen(q, "iteration", H5P_DEFAULT); if(a >= 0) { H5Aread(a, H5T_NATIVE_LLONG, &s.iteration); H5Aclose(a); }
  for(const char * n : {"id", "type", "x", "y", "z", "vx", "vy", "vz", "ax", "ay", "az", "m", "rho", "h", "P", "u", "dt"}) {
    if(H5Lexists(q, n, H5P_DEFAULT) <= 0) continue;
    hid_t d = H5Dopen2(q, n, H5P_DEFAULT), sp = H5Dget_space(d);
    hsize_t k = 0;
    H5Sget_simple_extent_dims(sp, &k, nullptr);
    H5Sclose(sp);
    if(!strcmp(n, "id")) { s.id.resize(k); H5Dread(d, H5T_NATIVE_LLONG, H5S_ALL, H5S_ALL, H5P_DEFAULT, s.id.data()); }
    else if(!strcmp(n, "type")) { s.type.resize(k); H5Dread(d, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, s.type.data()); }
    else { auto & v = s.f[n]; v.resize(k); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()); }
    H5Dclose(d);
  }
  H5Gclose(q); H5Fclose(f);
  return true;
}
//! an attribute of the whole file
static bool read_attr(const std::string & file, const char * name, hid_t type, void * to) {
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if(f < 0) return false;
  bool ok = H5Aexists(f, name) > 0;
  if(ok) { hid_t a = H5Aopen(f, name, H5P_DEFAULT); ok = H5Aread(a, type, to) >= 0; H5Aclose(a); }
  H5Fclose(f);
  return ok;
}
#pragma pop_macro("H5Fopen")
#pragma pop_macro("H5Fclose")
#pragma pop_macro("H5Gopen")
#pragma pop_macro("H5Gclose")
#pragma pop_macro("H5Dopen")
#pragma pop_macro("H5Dclose")
#pragma pop_macro("H5Dread")
#pragma pop_macro("H5Dwrite")
#pragma pop_macro("H5Dcreate")
#pragma pop_macro("H5Aopen")
#pragma pop_macro("H5Aclose")
#pragma pop_macro("H5Fcreate")
#pragma pop_macro("H5Gcreate")
#pragma pop_macro("H5Acreate")
#pragma pop_macro("H5Awrite")

// HDF5 for simulated ranks: the real library does the work on real files, the
// calls parallel HDF5 defines as collective are executed once, after every
// rank has arrived with the same arguments.  A file opened through the
// parallel driver cannot be closed while objects in it are open, and two opens
// of one file are independent; both are reproduced.
// Include mockmpi.h first (build with -fvisibility=hidden, so that the library
// keeps its own MPI symbols).
#pragma once
#include_next <hdf5.h>
#include <map>
#include <string>
#include <unordered_set>
#include <sys/stat.h>

namespace mockh5 {
struct State {
  std::map<int, uint64_t> seq;            // collective calls of each rank
  std::map<uint64_t, std::pair<hid_t, int>> result; // of one call, ranks that fetched it
  std::map<hid_t, int> closes;            // ranks that closed a shared object
  std::map<hid_t, std::string> copies;    // private copies behind read-only opens
  std::string dir;                        // where they are
  std::map<hid_t, std::unordered_set<std::string>> names; // in the root groups
  uint64_t n = 0, collectives = 0;
};
inline State & S() { static State s; return s; }
inline int me() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
inline int ranks() { int n; MPI_Comm_size(MPI_COMM_WORLD, &n); return n; }
inline uint64_t hash(const std::string & s) { uint64_t h = 1469598103934665603ull; for(unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

template<class F>
hid_t collective(const std::string & what, F f) {
  uint64_t h = hash(what), id = S().seq[me()]++;
  std::vector<uint64_t> all(ranks());
  MPI_Allgather(&h, 1, MPI_UINT64_T, all.data(), 1, MPI_UINT64_T, MPI_COMM_WORLD);
  for(int r = 0; r < ranks(); ++r) if(all[r] != h) mock::die("ranks disagree on a collective HDF5 call: " + what + " on rank " + std::to_string(me()) + ", another one on rank " + std::to_string(r));
  auto it = S().result.find(id);
  if(it == S().result.end()) { ++S().collectives; it = S().result.emplace(id, std::make_pair(f(), 0)).first; }
  hid_t r = it->second.first;
  if(++it->second.second == ranks()) S().result.erase(it);
  return r;
}
inline void reset(const std::string & dir) { // a new process: nothing is open
  for(unsigned t : {H5F_OBJ_ATTR, H5F_OBJ_DATASET, H5F_OBJ_GROUP, H5F_OBJ_FILE}) {
    ssize_t k = H5Fget_obj_count(H5F_OBJ_ALL, t);
    if(k <= 0) continue;
    std::vector<hid_t> v(k);
    k = H5Fget_obj_ids(H5F_OBJ_ALL, t, k, v.data());
    for(ssize_t i = 0; i < k; ++i) { if(t == H5F_OBJ_ATTR) H5Aclose(v[i]); else if(t == H5F_OBJ_DATASET) H5Dclose(v[i]); else if(t == H5F_OBJ_GROUP) H5Gclose(v[i]); else H5Fclose(v[i]); }
  }
  for(auto & c : S().copies) remove(c.second.c_str());
  S() = State();
  S().dir = dir;
}
inline std::string copy_of(const char * name) {
  FILE * f = fopen(name, "rb");
  if(!f) return name;
  std::string to = S().dir + "/copy" + std::to_string(++S().n);
  FILE * o = fopen(to.c_str(), "wb");
  char b[65536];
  size_t k;
  while((k = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, k, o);
  fclose(f); fclose(o);
  return to;
}
inline std::string num(long x) { return std::to_string(x); }
inline hid_t f_open(const char * name, unsigned fl, hid_t p) {
  return collective(std::string("H5Fopen ") + name + " " + num(fl), [&]() -> hid_t {
    if(fl & H5F_ACC_RDWR) return H5Fopen(name, fl, p);
    std::string c = copy_of(name);
    hid_t f = H5Fopen(c.c_str(), fl, p);
    if(c != name) { if(f >= 0) S().copies[f] = c; else remove(c.c_str()); }
    return f;
  });
}
inline hid_t f_create(const char * name, unsigned fl, hid_t a, hid_t p) { return collective(std::string("H5Fcreate ") + name + " " + num(fl), [&] { return H5Fcreate(name, fl, a, p); }); }
inline herr_t f_close(hid_t f) {
  S().names.erase(f);
  return (herr_t)collective("H5Fclose " + num(f), [&]() -> hid_t {
    herr_t r = H5Fclose(f);
    auto c = S().copies.find(f);
    if(r >= 0 && c != S().copies.end()) { remove(c->second.c_str()); S().copies.erase(c); }
    return r;
  });
}
inline hid_t g_open(hid_t f, const char * n, hid_t p) { return collective("H5Gopen " + num(f) + " " + n, [&] { return H5Gopen2(f, n, p); }); }
inline hid_t g_create(hid_t f, const char * n, hid_t a, hid_t b, hid_t c) { S().names.erase(f); return collective("H5Gcreate " + num(f) + " " + n, [&] { return H5Gcreate2(f, n, a, b, c); }); }
inline hid_t d_open(hid_t f, const char * n, hid_t p) { return collective("H5Dopen " + num(f) + " " + n, [&] { return H5Dopen2(f, n, p); }); }
inline hid_t d_create(hid_t f, const char * n, hid_t t, hid_t s, hid_t a, hid_t b, hid_t c) {
  hsize_t d = 0;
  H5Sget_simple_extent_dims(s, &d, nullptr); // every rank must describe the same dataset
  return collective("H5Dcreate " + num(f) + " " + n + " " + num(t) + " " + num((long)d), [&] { return H5Dcreate2(f, n, t, s, a, b, c); });
}
inline hid_t a_open(hid_t f, const char * n, hid_t p) { return collective("H5Aopen " + num(f) + " " + n, [&] { return H5Aopen(f, n, p); }); }
inline hid_t a_create(hid_t f, const char * n, hid_t t, hid_t s, hid_t a, hid_t b) { return collective("H5Acreate " + num(f) + " " + n, [&] { return H5Acreate2(f, n, t, s, a, b); }); }
inline herr_t a_write(hid_t a, hid_t t, const void * d) {
  hsize_t b = 0;
  if(a >= 0) b = H5Tget_size(t);
  return (herr_t)collective("H5Awrite " + num(a) + " " + std::string((const char *)d, b), [&] { return H5Awrite(a, t, d); });
}
template<class F> herr_t shared_close(hid_t x, F f) {
  if(x < 0) return -1;
  if(++S().closes[x] < ranks()) return 0;
  S().closes.erase(x);
  return f(x);
}
inline herr_t g_close(hid_t x) { return shared_close(x, H5Gclose); }
inline herr_t d_close(hid_t x) { return shared_close(x, H5Dclose); }
inline herr_t a_close(hid_t x) { return shared_close(x, H5Aclose); }
inline herr_t d_write(hid_t d, hid_t t, hid_t m, hid_t s, hid_t p, const void * b) { collective("H5Dwrite " + num(d), [] { return (hid_t)0; }); return H5Dwrite(d, t, m, s, H5P_DEFAULT, b); }
inline herr_t d_read(hid_t d, hid_t t, hid_t m, hid_t s, hid_t p, void * b) { collective("H5Dread " + num(d), [] { return (hid_t)0; }); return H5Dread(d, t, m, s, H5P_DEFAULT, b); }
//! existence of an object, the names in the root group are remembered: callers ask for a million of them
inline herr_t objinfo(hid_t f, const char * n, hbool_t follow, H5G_stat_t * st) {
  if(st || n[0] != '/' || strchr(n + 1, '/')) return H5Gget_objinfo(f, n, follow, st);
  auto it = S().names.find(f);
  if(it == S().names.end()) {
    hid_t r = H5Gopen2(f, "/", H5P_DEFAULT);
    if(r < 0) return -1;
    auto & k = S().names[f];
    hsize_t m = 0;
    H5Gget_num_objs(r, &m);
    for(hsize_t i = 0; i < m; ++i) { char b[300]; H5Gget_objname_by_idx(r, i, b, sizeof b); k.insert(b); }
    H5Gclose(r);
    it = S().names.find(f);
  }
  return it->second.count(n + 1) ? 0 : -1;
}
inline herr_t fapl(hid_t p) { return H5Pset_fclose_degree(p, H5F_CLOSE_SEMI); }
} // namespace mockh5

#undef H5Gopen
#undef H5Gcreate
#undef H5Dopen
#undef H5Dcreate
#undef H5Acreate
#define H5Gget_objinfo mockh5::objinfo
#define H5Fopen mockh5::f_open
#define H5Fcreate mockh5::f_create
#define H5Fclose mockh5::f_close
#define H5Gopen mockh5::g_open
#define H5Gcreate mockh5::g_create
#define H5Gclose mockh5::g_close
#define H5Dopen mockh5::d_open
#define H5Dcreate mockh5::d_create
#define H5Dclose mockh5::d_close
#define H5Dwrite mockh5::d_write
#define H5Dread mockh5::d_read
#define H5Aopen mockh5::a_open
#define H5Acreate mockh5::a_create
#define H5Aclose mockh5::a_close
#define H5Awrite mockh5::a_write
#define H5Pset_fapl_mpio(p, c, i) mockh5::fapl(p)
#define H5Pset_dxpl_mpio(p, m) ((herr_t)0)

// Global variables the code under test has now and did not have when the harness
// was written (globals.txt lists those it knows how to treat).  A change may add
// function-local statics, buffers or flags; in a real run each process has its own
// and starts afresh.  They are found in the program's own symbol table, start every
// case as in a new process and are given to every simulated rank separately.
#pragma once
#include <elf.h>
#include <fstream>
#include <link.h>
namespace pbt {
struct NewStatics {
  std::vector<std::pair<char *, size_t>> reg; // address and size of each
  std::vector<std::vector<char>> first;       // content at the start of the process
  std::vector<std::string> names;
  static bool library(const std::string & n) {
    for(const char * p : {"_ZSt", "_ZNSt", "_ZNKSt", "_ZGVNSt", "_ZGVZNSt", "_ZZNSt", "_ZZNKSt", "_ZN9__gnu_cxx", "_ZZN9__gnu_cxx", "__", "_ZGVSt", "_Z41__"})
      if(n.compare(0, strlen(p), p) == 0) return true;
    for(const char * p : {"3pbt", "4mock", "6mockh5", "asan", "ubsan", "_ZStL", "completed.", "environ", "program_invocation", "stdout", "stderr", "stdin", "opt"})
      if(n.find(p) != std::string::npos && (isdigit(p[0]) || n == p || p == std::string("asan") || p == std::string("ubsan") || p == std::string("completed."))) return true;
    return n.empty();
  }
  template<class F> static void each(F && f) {
    std::ifstream in("/proc/self/exe", std::ios::binary);
    std::string b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    if(b.size() < sizeof(Elf64_Ehdr)) return;
    auto * eh = (const Elf64_Ehdr *)b.data();
    auto * sh = (const Elf64_Shdr *)(b.data() + eh->e_shoff);
    const char * sn = b.data() + sh[eh->e_shstrndx].sh_offset;
    uintptr_t base = 0;
    dl_iterate_phdr([](dl_phdr_info * i, size_t, void * p) { *(uintptr_t *)p = i->dlpi_addr; return 1; }, &base);
    for(int s = 0; s < eh->e_shnum; ++s) {
      if(sh[s].sh_type != SHT_SYMTAB) continue;
      auto * sy = (const Elf64_Sym *)(b.data() + sh[s].sh_offset);
      const char * st = b.data() + sh[sh[s].sh_link].sh_offset;
      for(size_t k = 0; k < sh[s].sh_size / sizeof(Elf64_Sym); ++k) {
        if(ELF64_ST_TYPE(sy[k].st_info) != STT_OBJECT || sy[k].st_shndx >= eh->e_shnum || !sy[k].st_size) continue;
        std::string sec = sn + sh[sy[k].st_shndx].sh_name, name = st + sy[k].st_name;
        if((sec == ".data" || sec == ".bss") && !library(name)) f(name, (char *)(base + sy[k].st_value), (size_t)sy[k].st_size);
      }
    }
  }
  NewStatics() {
    const char * known = getenv("FLECSPH_KNOWN_STATICS");
    if(!known) return;
    std::ifstream k(known);
    std::set<std::string> old;
    std::string l;
    while(std::getline(k, l)) old.insert(l);
    if(old.empty()) return;
    each([&](const std::string & n, char * p, size_t s) {
      if(old.count(n)) return;
      reg.emplace_back(p, s); first.emplace_back(p, p + s); names.push_back(n);
    });
  }
  void reset() { for(size_t k = 0; k < reg.size(); ++k) memcpy(reg[k].first, first[k].data(), reg[k].second); }
  std::function<void()> on_reset; // set by the simulated ranks
};
inline NewStatics & new_statics() { static NewStatics n; return n; }
inline void as_new_process() {
  NewStatics & n = new_statics();
  if(n.reg.empty()) return;
  n.reset();
  if(n.on_reset) n.on_reset();
}
} // namespace pbt

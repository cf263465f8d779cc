// The executable of a program: runs a script of loading and unloading binaries, checking all ids after every step.
//   +NAME load (RTLD_LOCAL), *NAME load (RTLD_GLOBAL), -NAME unload
#include "typeids_api.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <vector>
struct Loaded {
    std::string name;
    void* h;
    const binary_api* api;
};
static std::vector<Loaded> bins;
static std::map<std::string, unsigned> ids;
static std::map<unsigned, std::string> names;
static const char *cur, *op;
static void sink(void*, const char* name, unsigned id) {
    auto [i, fresh] = ids.emplace(name, id);
    if (!fresh && i->second != id) {
        printf("FAIL after '%s' binary %s sees id %u for %s, which had id %u before\n", op, cur, id, name, i->second);
        fflush(stdout);
        _Exit(1);
    }
    auto [j, fresh2] = names.emplace(id, name);
    if (!fresh2 && j->second != name) {
        printf("FAIL after '%s' binary %s sees id %u for %s, which is the id of %s\n", op, cur, id, name, j->second.c_str());
        fflush(stdout);
        _Exit(1);
    }
}
static void report(const binary_api* a) {
    cur = a->name;
    a->ids(&sink, nullptr);
}
#ifdef SELF
extern "C" const binary_api* SELF();
#endif
#ifdef LINKED
extern "C" const binary_api* LINKED();
#endif
static void verify() {
    for (auto& b : bins) report(b.api);
    // every pair of binaries uses one registry, made by any of them
    int v = 1;
    for (auto& a : bins)
        for (auto& b : bins) {
            const binary_api* maker = (v % 2 ? a : b).api;
            co_ecs::registry* r = maker->make();
            a.api->put(*r, ++v);
            if (!b.api->check(*r, v) || !a.api->check(*r, v)) {
                printf("FAIL after '%s' binary %s does not find the components that binary %s created\n", op, b.name.c_str(), a.name.c_str());
                fflush(stdout);
                _Exit(1);
            }
            maker->drop(r);
        }
}
int main(int argc, char** argv) {
    std::string dir = argv[1];
    op = "start";
#ifdef SELF
    bins.push_back({ SELF()->name, nullptr, SELF() });
#endif
#ifdef LINKED
    bins.push_back({ LINKED()->name, nullptr, LINKED() });
#endif
    verify();
    for (int i = 2; i < argc; ++i) {
        op = argv[i];
        std::string n = op + 1;
        size_t k = 0;
        while (k < bins.size() && bins[k].name != n) ++k;
        if (*op == '-') {
            dlclose(bins[k].h);
            bins.erase(bins.begin() + long(k));
            if (bins.empty()) { // if the host has left memory, with it went the program's ids
                void* h = dlopen((dir + "/libhost.so").c_str(), RTLD_NOW | RTLD_NOLOAD);
                if (h) dlclose(h);
                else ids.clear(), names.clear();
            }
        } else {
            void* h = dlopen((dir + "/lib" + n + ".so").c_str(), RTLD_NOW | (*op == '+' ? RTLD_LOCAL : RTLD_GLOBAL));
            if (!h) {
                printf("ERROR %s\n", dlerror());
                return 3;
            }
            auto f = reinterpret_cast<const binary_api* (*)()>(dlsym(h, (n + "_api").c_str()));
            if (k == bins.size()) bins.push_back({ n, h, f() });
            else dlclose(h); // loaded already
        }
        verify();
    }
    printf("OK %zu types %zu binaries\n", ids.size(), bins.size());
    return 0;
}

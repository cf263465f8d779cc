// component ids used while the program's global objects are initialised, by way of another source file
#include <co_ecs/co_ecs.hpp>
#include <cstdio>
#include <cstdlib>
using namespace co_ecs;
struct A { int v = 1; };
struct B { int v = 2; };
struct C { int v = 3; };
struct Early {
    unsigned id[3];
    registry* r;
    entity e;
};
Early early();
#if PART == 1
static Early g = early();
int main() {
    unsigned now[3] = { component_id::value<A>, component_id::value<B>, component_id::value<C> };
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k)
            if ((g.id[i] == now[k]) != (i == k)) {
                printf("FAIL the ids of A, B and C during initialisation of a global object are %u %u %u, later %u %u %u\n", g.id[0], g.id[1], g.id[2], now[0], now[1], now[2]);
                return 1;
            }
    auto e = g.r->get_entity(g.e);
    if (!e.has<A>() || !e.has<B>() || e.has<C>() || e.get<A>().v != 10 || e.get<B>().v != 20) {
        printf("FAIL an entity created during initialisation of a global object lacks its components\n");
        return 1;
    }
    printf("OK\n");
}
#else
Early early() {
    Early x{ { component_id::value<A>, component_id::value<B>, component_id::value<C> }, new registry, {} };
    if (x.id[0] != x.id[1]) x.e = x.r->create<A, B>({ 10 }, { 20 });
    return x;
}
#endif

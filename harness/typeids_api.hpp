#pragma once
namespace co_ecs { class registry; }
using id_sink = void (*)(void*, const char* name, unsigned id);
struct binary_api {
    const char* name;
    void (*ids)(id_sink, void*);               // reports all types of the binary
    co_ecs::registry* (*make)();
    void (*drop)(co_ecs::registry*);
    void (*put)(co_ecs::registry&, int v); // creates entities
    bool (*check)(co_ecs::registry&, int v);   // finds them
};

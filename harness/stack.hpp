// runs a function on a thread whose stack is pre-filled, and reports how deep it went; below the stack lie inaccessible pages
#pragma once
#include <pthread.h>
#include <sys/mman.h>
#include <cstring>
#include <exception>
#include <functional>
struct MeteredStack {
  static const size_t SZ = 2u << 20, GUARD = 1u << 30; char* base = nullptr;
  MeteredStack() { base = (char*)mmap(nullptr, GUARD + SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { base = nullptr; return; } if (mprotect(base + GUARD, SZ, PROT_READ | PROT_WRITE)) base = nullptr; }
  static void* go(void* v) { auto* a = (std::pair<std::function<void()>*, std::exception_ptr>*)v; try { (*a->first)(); } catch (...) { a->second = std::current_exception(); } return nullptr; }
  // bytes of stack used; exceptions of f are passed on
  size_t run(std::function<void()> f) {
    if (!base) { f(); return 0; } char* lo = base + GUARD; memset(lo, 0xA5, SZ); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, lo, SZ); pthread_t th; std::pair<std::function<void()>*, std::exception_ptr> a(&f, nullptr);
    if (pthread_create(&th, &at, go, &a)) { pthread_attr_destroy(&at); f(); return 0; } pthread_join(th, nullptr); pthread_attr_destroy(&at); size_t i = 0; while (i < SZ && lo[i] == (char)0xA5) i++; if (a.second) std::rethrow_exception(a.second); return SZ - i; }
};

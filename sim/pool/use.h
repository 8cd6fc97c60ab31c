// The calls of the pool, in a unit of their own: they are instrumented, the harness is not.
#pragma once
#include <functional>
#include <future>
#include <memory>
#include <string>
struct Pool;
Pool *poolDefault();
Pool *poolOf(unsigned n);
void poolDestroy(Pool *);
void poolFree(void *raw);
std::future<int> submitInt(Pool *, const std::function<int()> &);
std::future<std::string> submitStr(Pool *, const std::function<std::string()> &);
std::future<void> submitVoid(Pool *, const std::function<void()> &);
std::future<void> submitVoidT(Pool *, const std::function<void()> &);
std::future<std::unique_ptr<int>> submitPtr(Pool *, const std::function<std::unique_ptr<int>()> &);
std::future<int &> submitRef(Pool *, const std::function<int &()> &);

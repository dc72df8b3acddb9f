#include "vengine.h"
using namespace ve;
using namespace hdk::ir;
int main(int argc, char** argv) {
  vh::init(argc, argv);
  logger::LogOptions lo("h");
  lo.severity_ = logger::Severity::FATAL;
  logger::init(lo);
  Engine e;
  auto& ctx = Context::defaultCtx();
  auto dt = e.storage->newDictType();
  Rows rows;
  for (int i = 0; i < 100; ++i)
    rows.push_back({i % 7 ? Val::I(i % 10) : Val::null(), Val::D(i * 0.5), Val::S("s" + std::to_string(i % 5)), Val::I(i)});
  e.storage->addTable("t1", {{"a", ctx.int32()}, {"f", ctx.fp64()}, {"s", dt}, {"l", ctx.int64()}}, rows, {30, 30, 40});
  auto b = e.builder();
  auto t = b.scan("t1");
  auto dag = t.filter(t.ref("l") > 50).agg({"s", "a"}, {"count", "sum(l)", "avg(f)"}).sort({0, 1}).finalize();
  auto r = e.run(std::move(dag));
  auto out = fetch(r);
  printf("%s\n", show(out, 100).c_str());
  return vh::finish();
}

// Sources and groups used by the drivers: plain implementations of the public interfaces.
#ifndef VPSOURCES_H
#define VPSOURCES_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <vector>
#include "SEFramework/Property/Property.h"
#include "SEFramework/Source/SourceInterface.h"
#include "SEFramework/Source/SourceGroupInterface.h"
namespace vp {
using namespace SourceXtractor;
struct Tag : public Property { int id; explicit Tag(int i) : id(i) {} };
/// A property store whose missing properties are made by a callback (or PropertyNotFoundException).
class FakeSource : public SourceInterface {
public:
  using Maker = std::function<std::unique_ptr<Property>(FakeSource&, const PropertyId&)>;
  int tag;
  explicit FakeSource(int t, Maker m = nullptr) : tag(t), m_maker(std::move(m)) { m_props[PropertyId::create<Tag>()].reset(new Tag(t)); }
  ~FakeSource() override { if (onDelete) onDelete(tag); }
  std::function<void(int)> onDelete;
  using SourceInterface::getProperty;
  using SourceInterface::setProperty;
  const Property& getProperty(const PropertyId& id) const override {
    auto i = m_props.find(id);
    if (i != m_props.end()) return *i->second;
    if (m_maker) {
      auto p = m_maker(const_cast<FakeSource&>(*this), id);
      if (p) { auto& r = *p; m_props[id] = std::move(p); return r; }
      i = m_props.find(id);
      if (i != m_props.end()) return *i->second;
    }
    throw PropertyNotFoundException(id);
  }
  void setProperty(std::unique_ptr<Property> p, const PropertyId& id) override { m_props[id] = std::move(p); }
  // memory of destroyed sources is handed out again immediately
  static void* operator new(size_t n) {
    std::lock_guard<std::mutex> l(mtx());
    auto& f = freeList();
    if (!f.empty() && n == sizeof(FakeSource)) { void* p = f.back(); f.pop_back(); return p; }
    return ::operator new(n);
  }
  static void operator delete(void* p, size_t n) {
    std::lock_guard<std::mutex> l(mtx());
    if (n == sizeof(FakeSource)) { freeList().push_back(p); return; }
    ::operator delete(p);
  }
private:
  static std::vector<void*>& freeList() { static std::vector<void*> v; return v; }
  static std::mutex& mtx() { static std::mutex m; return m; }
  mutable std::map<PropertyId, std::unique_ptr<Property>> m_props;
  Maker m_maker;
};
inline int tagOf(const SourceInterface& s) { return s.getProperty<Tag>().id; }
}
#endif

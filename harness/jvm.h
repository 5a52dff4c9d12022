// A small Java virtual machine behind a real JNIEnv: classes, methods, fields,
// strings, arrays, direct buffers, exceptions and references, with the rules of
// JNI watched on every call (as -Xcheck:jni does).
#ifndef VERIF_JVM_H_
#define VERIF_JVM_H_
#include <jni.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <cstdarg>
#include <memory>
#include <mutex>
#include <set>
#include <unordered_map>
#include "vh.h"
namespace jvm {
using vh::Cat;
// Heap blocks allocated by native code (not by this machine) and still live.
struct HeapWatch {
  static inline thread_local bool inside = false;  // native code is running
  static inline thread_local bool busy = false;
  struct Block { size_t size; int epoch; };
  static inline std::unordered_map<const void*, Block>* live = nullptr;
  static inline int epoch = 0;
  static inline std::mutex mu;
  static void OnMalloc(const volatile void* p, size_t n) {
    if (!inside || busy || !live) return;
    busy = true; { std::lock_guard l(mu); (*live)[(const void*)p] = {n, epoch}; } busy = false;
  }
  static void OnFree(const volatile void* p) {
    if (busy || !live) return;
    busy = true; { std::lock_guard l(mu); live->erase((const void*)p); } busy = false;
  }
  static void Start() {
    busy = true;
    if (!live) { live = new std::unordered_map<const void*, Block>(); __sanitizer_install_malloc_and_free_hooks(&OnMalloc, &OnFree); }
    live->clear(); epoch = 0;
    busy = false;
  }
  static size_t Count(int e) { size_t n = 0; for (auto& [p, b] : *live) n += b.epoch == e; return n; }
  static std::string Show(int e) { bool b = busy; busy = true; std::string s; int k = 0; for (auto& [p, blk] : *live) { if (blk.epoch != e) continue; if (++k > 4) break; s += Cat(blk.size, " bytes from");
      void* pcs[24]; int tid; size_t m = __asan_get_alloc_stack(const_cast<void*>(p), pcs, 24, &tid);
      for (size_t i = 1; i < m && i < 9; ++i) { char buf[200] = ""; __sanitizer_symbolize_pc(pcs[i], "%f", buf, sizeof buf); s += " " + std::string(buf).substr(0, 80); }
      s += "; "; } busy = b; return s; }
};
struct Host {  // the machine itself is running
  bool old = HeapWatch::inside;
  Host() { HeapWatch::inside = false; }
  ~Host() { HeapWatch::inside = old; }
};
struct Native {  // native code is running
  bool old = HeapWatch::inside;
  Native() { HeapWatch::inside = true; }
  ~Native() { HeapWatch::inside = old; }
};
[[noreturn]] inline void Misuse(const char* what, const std::string& more = "") { throw vh::Violation("jni-misuse", Cat("JNI rule broken: ", what, " ", more)); }

struct Vm; struct Obj; struct Class;
using Args = std::vector<jvalue>;
using Fn = std::function<jvalue(Vm&, Obj* self, const Args&)>;
struct Method { Class* cls; std::string name, sig; bool is_static; Fn fn; };
struct Field { Class* cls; std::string name, sig; };
struct Obj {
  Class* cls = nullptr;
  Class* mirrors = nullptr;  // for class objects
  std::string str;           // of strings (modified UTF-8) and the message of throwables
  bool has_str = false;
  std::vector<std::byte> data;  // of primitive arrays
  size_t elem = 0;              // bytes of an element
  char kind = 0;                // type of the elements: Z B S I J F D L
  std::vector<Obj*> elems;
  void* addr = nullptr; jlong cap = 0;  // of direct buffers
  std::map<std::string, jvalue> fields;
  std::map<std::string, Obj*> ofields;
  std::vector<std::pair<std::string, Args>> calls;  // what native code called on it
  size_t Len() const { return kind == 'L' ? elems.size() : data.size() / elem; }
  template <typename T> T* As() { return reinterpret_cast<T*>(data.data()); }
};
struct Class {
  std::string name; Class* super = nullptr; Obj* mirror = nullptr;
  std::vector<std::unique_ptr<Method>> methods; std::vector<std::unique_ptr<Field>> fields;
  bool Is(const Class* o) const { for (const Class* c = this; c; c = c->super) if (c == o) return true; return false; }
};
struct Ref { uint64_t magic; Obj* obj; int kind; bool live; };  // kind: 0 local, 1 global, 2 weak
constexpr uint64_t kMagic = 0x4a4e495f52454621ull;
struct Pin { Obj* obj; std::unique_ptr<char[]> mem; size_t n; bool is_string; bool critical; };

struct Vm {
  std::map<std::string, std::unique_ptr<Class>> classes;
  std::vector<std::unique_ptr<Obj>> objs;
  std::vector<std::unique_ptr<Ref>> refs;
  std::map<const void*, Pin> pins;
  Obj* pending = nullptr;
  int critical = 0;
  int calls_made = 0;
  uint64_t events = 0;
  JNINativeInterface_ table;
  JNIEnv_ env;
  static inline Vm* cur = nullptr;

  Vm();
  ~Vm() { if (cur == this) cur = nullptr; }
  Class* Find(const std::string& n) { auto it = classes.find(n); return it == classes.end() ? nullptr : it->second.get(); }
  Class* Define(const std::string& n, const char* super = "java/lang/Object") {
    auto c = std::make_unique<Class>(); c->name = n; c->super = super ? Find(super) : nullptr;
    Class* p = c.get(); classes[n] = std::move(c);
    p->mirror = NewObj(nullptr); p->mirror->mirrors = p;
    return p;
  }
  void Def(const char* cls, const char* name, const char* sig, Fn f, bool is_static = false) {
    Class* c = Find(cls); auto m = std::make_unique<Method>(); m->cls = c; m->name = name; m->sig = sig; m->is_static = is_static; m->fn = std::move(f);
    c->methods.push_back(std::move(m));
  }
  void DefField(const char* cls, const char* name, const char* sig) { Class* c = Find(cls); auto f = std::make_unique<Field>(); f->cls = c; f->name = name; f->sig = sig; c->fields.push_back(std::move(f)); }
  Obj* NewObj(Class* c) { objs.push_back(std::make_unique<Obj>()); objs.back()->cls = c; return objs.back().get(); }
  Obj* NewStr(const std::string& s) { Obj* o = NewObj(Find("java/lang/String")); o->str = s; o->has_str = true; return o; }
  static size_t SizeOf(char k) { switch (k) { case 'Z': case 'B': return 1; case 'S': case 'C': return 2; case 'I': case 'F': return 4; case 'J': case 'D': return 8; default: return 0; } }
  Obj* NewArr(char k, size_t n) { Obj* o = NewObj(Find(std::string("[") + k)); o->kind = k; o->elem = SizeOf(k); if (k == 'L') o->elems.resize(n); else o->data.resize(n * o->elem); return o; }
  Obj* NewThrow(const char* cls, const std::string* msg) { Obj* o = NewObj(Find(cls)); if (msg) { o->str = *msg; o->has_str = true; } return o; }
  jobject Local(Obj* o, int kind = 0) { if (!o) return nullptr; refs.push_back(std::make_unique<Ref>(Ref{kMagic, o, kind, true})); return reinterpret_cast<jobject>(refs.back().get()); }
  jclass Cls(const char* n) { return (jclass)Local(Find(n)->mirror); }
  std::set<const void*> known;
  Ref* Check(jobject r, const char* who) {
    Ref* p = reinterpret_cast<Ref*>(r);
    // References handed out are never freed, so a wrong one is found by looking it up.
    bool ok = false;
    for (size_t i = refs.size(); i-- > 0 && !ok;) ok = refs[i].get() == p;
    if (!ok) Misuse("not a reference", who);
    if (!p->live) Misuse("reference used after it was deleted", who);
    return p;
  }
  Obj* Get(jobject r, const char* who) { if (!r) Misuse("null reference", who); return Check(r, who)->obj; }
  Obj* GetOrNull(jobject r, const char* who) { return r ? Check(r, who)->obj : nullptr; }
  Class* GetClass(jclass r, const char* who) { Obj* o = Get(r, who); if (!o->mirrors) Misuse("not a class", who); return o->mirrors; }
  void Enter(const char* who, bool ok_when_pending = false, bool ok_in_critical = false) {
    ++events;
    if (pending && !ok_when_pending) Misuse("called while an exception is pending", who);
    if (critical && !ok_in_critical) Misuse("called inside a critical region", who);
  }
  void ThrowNew(const char* cls, const std::string& msg) { pending = NewThrow(cls, &msg); }
  Method* FindMethod(Class* c, const char* name, const char* sig, bool st) {
    for (Class* k = c; k; k = k->super) { for (auto& m : k->methods) if (m->is_static == st && m->name == name && m->sig == sig) return m.get(); if (!strcmp(name, "<init>")) break; }
    return nullptr;
  }
  // Reads the arguments of a call as its signature says.
  Args Read(Method* m, va_list* va, const jvalue* a) {
    Args out; const char* p = m->sig.c_str() + 1; int i = 0;
    for (; *p != ')'; ++p, ++i) {
      char k = *p; jvalue v; v.j = 0;
      if (a) v = a[i];
      else switch (k) {
        case 'Z': v.z = (jboolean)va_arg(*va, int); break;
        case 'B': v.b = (jbyte)va_arg(*va, int); break;
        case 'S': v.s = (jshort)va_arg(*va, int); break;
        case 'C': v.c = (jchar)va_arg(*va, int); break;
        case 'I': v.i = va_arg(*va, jint); break;
        case 'J': v.j = va_arg(*va, jlong); break;
        case 'F': v.f = (jfloat)va_arg(*va, double); break;
        case 'D': v.d = va_arg(*va, double); break;
        default: v.l = va_arg(*va, jobject);
      }
      if (k == 'L' || k == '[') {
        std::string cn;
        if (k == 'L') { while (*++p != ';') cn += *p; } else { while (*p == '[') cn += *p++; if (*p == 'L') { cn += 'L'; while (*p != ';') ++p; } else cn += *p; }
        if (v.l) { Obj* o = Get(v.l, "argument"); Class* want = Find(cn); if (want && o->cls && !o->cls->Is(want)) Misuse("argument of another class", Cat(o->cls->name, " for ", cn, " in ", m->name)); }
      }
      out.push_back(v);
    }
    return out;
  }
  jvalue Call(jobject self, jclass cls, jmethodID id, va_list* va, const jvalue* a, char ret, const char* who) {
    Enter(who);
    if (!id) Misuse("null method", who);
    Method* m = reinterpret_cast<Method*>(id);
    Obj* o = nullptr;
    if (self) { o = Get(self, who); if (m->is_static) Misuse("static method called on an object", m->name); if (!o->cls || !o->cls->Is(m->cls)) Misuse("method of another class", m->name); }
    else { Class* c = GetClass(cls, who); if (!m->is_static && m->name != "<init>") Misuse("instance method called as static", m->name); if (!c->Is(m->cls)) Misuse("method of another class", m->name); }
    char want = m->sig[m->sig.find(')') + 1]; if (want == '[') want = 'L';
    if (ret != want && m->name != "<init>") Misuse("method called with another return type", m->name);
    Args args = Read(m, va, a);
    ++calls_made;
    if (!self && m->name == "<init>") { o = NewObj(GetClass(cls, who)); o->calls.push_back({"<init>", args}); if (m->fn) m->fn(*this, o, args); jvalue v; v.l = Local(o); return v; }
    if (o) o->calls.push_back({m->name + m->sig, args});
    jvalue v; v.j = 0;
    if (m->fn) v = m->fn(*this, o, args);
    if (pending) v.j = 0;
    return v;
  }
  // What must hold when a native method returns.
  void AfterCall(const char* who) {
    for (auto& r : refs) if (r->live && r->kind != 0) throw vh::Violation("jni-ref-leak", Cat(who, " left a global reference behind"));
    if (!pins.empty()) throw vh::Violation("jni-pin-leak", Cat(who, " did not release ", pins.size(), " strings or arrays"));
    if (critical) throw vh::Violation("jni-pin-leak", Cat(who, " left a critical region open"));
  }
  void PopLocals() { for (auto& r : refs) r->live = false; if (refs.size() > 4000) refs.clear(); }
};
// Modified UTF-8, as the virtual machine wants it: no NUL byte, one to three bytes per unit.
inline bool ModifiedUtf8(std::string_view s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    auto cont = [&](size_t k) { return k < s.size() && ((unsigned char)s[k] & 0xc0) == 0x80; };
    if (c == 0) return false;
    if (c < 0x80) i += 1;
    else if ((c & 0xe0) == 0xc0) { if (!cont(i + 1)) return false; i += 2; }
    else if ((c & 0xf0) == 0xe0) { if (!cont(i + 1) || !cont(i + 2)) return false; i += 3; }
    else return false;
  }
  return true;
}
inline Vm& V() { return *Vm::cur; }
#define JF(ret, name, ...) t.name = [](JNIEnv*, ##__VA_ARGS__) -> ret
inline void Trap() { throw std::runtime_error("the machine lacks a JNI function that native code called"); }
template <typename T> T Take(jvalue v) {
  if constexpr (std::is_void_v<T>) return;
  else if constexpr (std::is_pointer_v<T>) return (T)v.l;
  else { T t; std::memcpy(&t, &v, sizeof t); return t; }
}
template <typename T> constexpr char KindOf() {
  if (std::is_void_v<T>) return 'V';
  if (std::is_pointer_v<T>) return 'L';
  if (std::is_same_v<T, jboolean>) return 'Z';
  if (std::is_same_v<T, jbyte>) return 'B';
  if (std::is_same_v<T, jshort>) return 'S';
  if (std::is_same_v<T, jint>) return 'I';
  if (std::is_same_v<T, jlong>) return 'J';
  if (std::is_same_v<T, jfloat>) return 'F';
  return 'D';
}
struct VaEnd { va_list& v; ~VaEnd() { va_end(v); } };
template <typename T> struct Calls {
  static T JNICALL Inst(JNIEnv*, jobject o, jmethodID m, ...) { Host h; va_list va; va_start(va, m); VaEnd e{va}; if (!o) Misuse("null object", "Call<Type>Method"); return Take<T>(V().Call(o, nullptr, m, &va, nullptr, KindOf<T>(), "Call<Type>Method")); }
  static T JNICALL InstV(JNIEnv*, jobject o, jmethodID m, va_list va0) { Host h; va_list va; va_copy(va, va0); VaEnd e{va}; if (!o) Misuse("null object", "Call<Type>MethodV"); return Take<T>(V().Call(o, nullptr, m, &va, nullptr, KindOf<T>(), "Call<Type>Method")); }
  static T JNICALL InstA(JNIEnv*, jobject o, jmethodID m, const jvalue* a) { Host h; if (!o) Misuse("null object", "Call<Type>MethodA"); return Take<T>(V().Call(o, nullptr, m, nullptr, a, KindOf<T>(), "Call<Type>Method")); }
  static T JNICALL Stat(JNIEnv*, jclass c, jmethodID m, ...) { Host h; va_list va; va_start(va, m); VaEnd e{va}; return Take<T>(V().Call(nullptr, c, m, &va, nullptr, KindOf<T>(), "CallStatic<Type>Method")); }
  static T JNICALL StatV(JNIEnv*, jclass c, jmethodID m, va_list va0) { Host h; va_list va; va_copy(va, va0); VaEnd e{va}; return Take<T>(V().Call(nullptr, c, m, &va, nullptr, KindOf<T>(), "CallStatic<Type>Method")); }
  static T JNICALL StatA(JNIEnv*, jclass c, jmethodID m, const jvalue* a) { Host h; return Take<T>(V().Call(nullptr, c, m, nullptr, a, KindOf<T>(), "CallStatic<Type>Method")); }
};
template <typename T> struct Fields {
  static T JNICALL Read(JNIEnv*, jobject o, jfieldID f) { Host h; V().Enter("Get<Type>Field"); Obj* p = V().Get(o, "Get<Type>Field"); Field* k = reinterpret_cast<Field*>(f); if (!k) Misuse("null field"); if (!p->cls || !p->cls->Is(k->cls)) Misuse("field of another class", k->name); char want = k->sig[0] == '[' ? 'L' : k->sig[0]; if (want != KindOf<T>()) Misuse("field read with another type", k->name); if constexpr (std::is_pointer_v<T>) return (T)V().Local(p->ofields[k->name]); else return Take<T>(p->fields[k->name]); }
  static void JNICALL Write(JNIEnv*, jobject o, jfieldID f, T v) { Host h; V().Enter("Set<Type>Field"); Obj* p = V().Get(o, "Set<Type>Field"); Field* k = reinterpret_cast<Field*>(f); if (!k) Misuse("null field"); if (!p->cls || !p->cls->Is(k->cls)) Misuse("field of another class", k->name); char want = k->sig[0] == '[' ? 'L' : k->sig[0]; if (want != KindOf<T>()) Misuse("field written with another type", k->name); if constexpr (std::is_pointer_v<T>) p->ofields[k->name] = V().GetOrNull(v, "Set<Type>Field"); else { jvalue j; j.j = 0; std::memcpy(&j, &v, sizeof v); p->fields[k->name] = j; } }
};
template <typename T, typename A> struct Arrays {
  static A JNICALL New(JNIEnv*, jsize n) { Host h; V().Enter("New<Type>Array"); if (n < 0) Misuse("negative array size"); return (A)V().Local(V().NewArr(KindOf<T>(), n)); }
  static Obj* G(A a, const char* w) { Obj* o = V().Get(a, w); if (o->kind != KindOf<T>()) Misuse("array of another type", w); return o; }
  static T* JNICALL Elems(JNIEnv*, A a, jboolean* copy) {
    Host h; V().Enter("Get<Type>ArrayElements"); Obj* o = G(a, "Get<Type>ArrayElements");
    size_t n = o->data.size(); auto m = std::make_unique<char[]>(n ? n : 1); if (n) std::memcpy(m.get(), o->data.data(), n);
    T* p = reinterpret_cast<T*>(m.get()); V().pins[p] = Pin{o, std::move(m), n, false, false}; if (copy) *copy = JNI_TRUE; return p;
  }
  static void JNICALL Release(JNIEnv*, A a, T* p, jint mode) {
    Host h; V().Enter("Release<Type>ArrayElements", true); Obj* o = G(a, "Release<Type>ArrayElements");
    auto it = V().pins.find(p); if (it == V().pins.end() || it->second.obj != o || it->second.is_string) Misuse("released elements that were not held");
    if (mode != JNI_ABORT && it->second.n) std::memcpy(o->data.data(), p, it->second.n);
    if (mode != JNI_COMMIT) V().pins.erase(it);
  }
  static bool Range(Obj* o, jsize s, jsize n) { if (s < 0 || n < 0 || (size_t)s + (size_t)n > o->Len()) { V().ThrowNew("java/lang/ArrayIndexOutOfBoundsException", "range"); return false; } return true; }
  static void JNICALL GetR(JNIEnv*, A a, jsize s, jsize n, T* b) { Host h; V().Enter("Get<Type>ArrayRegion"); Obj* o = G(a, "Get<Type>ArrayRegion"); if (Range(o, s, n) && n) std::memcpy(b, o->data.data() + s * sizeof(T), n * sizeof(T)); }
  static void JNICALL SetR(JNIEnv*, A a, jsize s, jsize n, const T* b) { Host h; V().Enter("Set<Type>ArrayRegion"); Obj* o = G(a, "Set<Type>ArrayRegion"); if (Range(o, s, n) && n) std::memcpy(o->data.data() + s * sizeof(T), b, n * sizeof(T)); }
};
inline jmethodID GetMid(jclass c, const char* n, const char* s, bool st) {
  Host h; V().Enter("GetMethodID"); Method* m = V().FindMethod(V().GetClass(c, "GetMethodID"), n, s, st);
  if (!m) { V().ThrowNew("java/lang/NoSuchMethodError", n); return nullptr; }
  return reinterpret_cast<jmethodID>(m);
}
inline jobject JNICALL NewObjectVariadic(JNIEnv*, jclass c, jmethodID m, ...) { Host h; va_list va; va_start(va, m); VaEnd e{va}; return V().Call(nullptr, c, m, &va, nullptr, 'L', "NewObject").l; }
inline Vm::Vm() {
  Host h;
  cur = this;
  void** slots = reinterpret_cast<void**>(&table);
  for (size_t i = 0; i < sizeof table / sizeof(void*); ++i) slots[i] = reinterpret_cast<void*>(&Trap);
  auto& t = table;
  env.functions = &table;
  JF(jint, GetVersion) { return JNI_VERSION_1_6; };
  JF(jclass, FindClass, const char* n) { Host h; V().Enter("FindClass"); Class* c = V().Find(n); if (!c) { V().ThrowNew("java/lang/NoClassDefFoundError", n); return nullptr; } return (jclass)V().Local(c->mirror); };
  JF(jclass, GetSuperclass, jclass c) { Host h; V().Enter("GetSuperclass"); Class* k = V().GetClass(c, "GetSuperclass")->super; return k ? (jclass)V().Local(k->mirror) : nullptr; };
  JF(jboolean, IsAssignableFrom, jclass a, jclass b) { Host h; V().Enter("IsAssignableFrom"); return V().GetClass(a, "IsAssignableFrom")->Is(V().GetClass(b, "IsAssignableFrom")); };
  JF(jint, Throw, jthrowable o) { Host h; V().Enter("Throw"); V().pending = V().Get(o, "Throw"); return 0; };
  JF(jint, ThrowNew, jclass c, const char* m) { Host h; V().Enter("ThrowNew"); Class* k = V().GetClass(c, "ThrowNew"); if (!k->Is(V().Find("java/lang/Throwable"))) Misuse("ThrowNew with a class that is not throwable", k->name); if (m && !ModifiedUtf8(m)) Misuse("message is not modified UTF-8", m); Obj* o = V().NewObj(k); if (m) { o->str = m; o->has_str = true; } V().pending = o; return 0; };
  JF(jthrowable, ExceptionOccurred) { Host h; V().Enter("ExceptionOccurred", true); return (jthrowable)V().Local(V().pending); };
  JF(void, ExceptionDescribe) { Host h; V().Enter("ExceptionDescribe", true); };
  JF(void, ExceptionClear) { Host h; V().Enter("ExceptionClear", true); V().pending = nullptr; };
  JF(jboolean, ExceptionCheck) { Host h; V().Enter("ExceptionCheck", true); return V().pending != nullptr; };
  JF(void, FatalError, const char* m) { throw vh::Violation("jni-fatal", m); };
  JF(jint, PushLocalFrame, jint) { Host h; V().Enter("PushLocalFrame"); return 0; };
  JF(jobject, PopLocalFrame, jobject r) { Host h; V().Enter("PopLocalFrame", true); return r; };
  JF(jobject, NewGlobalRef, jobject o) { Host h; V().Enter("NewGlobalRef"); return V().Local(V().GetOrNull(o, "NewGlobalRef"), 1); };
  JF(void, DeleteGlobalRef, jobject o) { Host h; V().Enter("DeleteGlobalRef", true); if (!o) return; Ref* r = V().Check(o, "DeleteGlobalRef"); if (r->kind != 1) Misuse("DeleteGlobalRef of a reference that is not global"); r->live = false; };
  JF(void, DeleteLocalRef, jobject o) { Host h; V().Enter("DeleteLocalRef", true); if (!o) return; Ref* r = V().Check(o, "DeleteLocalRef"); if (r->kind != 0) Misuse("DeleteLocalRef of a reference that is not local"); r->live = false; };
  JF(jweak, NewWeakGlobalRef, jobject o) { Host h; V().Enter("NewWeakGlobalRef"); return V().Local(V().GetOrNull(o, "NewWeakGlobalRef"), 2); };
  JF(void, DeleteWeakGlobalRef, jweak o) { Host h; V().Enter("DeleteWeakGlobalRef", true); if (o) V().Check(o, "DeleteWeakGlobalRef")->live = false; };
  JF(jboolean, IsSameObject, jobject a, jobject b) { Host h; V().Enter("IsSameObject"); return V().GetOrNull(a, "IsSameObject") == V().GetOrNull(b, "IsSameObject"); };
  JF(jobject, NewLocalRef, jobject o) { Host h; V().Enter("NewLocalRef"); return V().Local(V().GetOrNull(o, "NewLocalRef")); };
  JF(jint, EnsureLocalCapacity, jint) { Host h; V().Enter("EnsureLocalCapacity"); return 0; };
  t.NewObject = NewObjectVariadic;
  JF(jobject, NewObjectV, jclass c, jmethodID m, va_list va0) { Host h; va_list va; va_copy(va, va0); VaEnd e{va}; return V().Call(nullptr, c, m, &va, nullptr, 'L', "NewObject").l; };
  JF(jobject, NewObjectA, jclass c, jmethodID m, const jvalue* a) { Host h; return V().Call(nullptr, c, m, nullptr, a, 'L', "NewObject").l; };
  JF(jclass, GetObjectClass, jobject o) { Host h; V().Enter("GetObjectClass"); Obj* p = V().Get(o, "GetObjectClass"); return (jclass)V().Local(p->cls ? p->cls->mirror : V().Find("java/lang/Class")->mirror); };
  JF(jboolean, IsInstanceOf, jobject o, jclass c) { Host h; V().Enter("IsInstanceOf"); Class* k = V().GetClass(c, "IsInstanceOf"); return !o || (V().Get(o, "IsInstanceOf")->cls && V().Get(o, "IsInstanceOf")->cls->Is(k)); };
  JF(jmethodID, GetMethodID, jclass c, const char* n, const char* s) { return GetMid(c, n, s, false); };
  JF(jmethodID, GetStaticMethodID, jclass c, const char* n, const char* s) { return GetMid(c, n, s, true); };
  JF(jfieldID, GetFieldID, jclass c, const char* n, const char* s) { Host h; V().Enter("GetFieldID"); for (Class* k = V().GetClass(c, "GetFieldID"); k; k = k->super) for (auto& f : k->fields) if (f->name == n && f->sig == s) return reinterpret_cast<jfieldID>(f.get()); V().ThrowNew("java/lang/NoSuchFieldError", n); return nullptr; };
#define JC(T, N) t.Call##N##Method = Calls<T>::Inst; t.Call##N##MethodV = Calls<T>::InstV; t.Call##N##MethodA = Calls<T>::InstA; t.CallStatic##N##Method = Calls<T>::Stat; t.CallStatic##N##MethodV = Calls<T>::StatV; t.CallStatic##N##MethodA = Calls<T>::StatA
  JC(jobject, Object); JC(jboolean, Boolean); JC(jbyte, Byte); JC(jshort, Short); JC(jint, Int); JC(jlong, Long); JC(jfloat, Float); JC(jdouble, Double);
  t.CallVoidMethod = Calls<void>::Inst; t.CallVoidMethodV = Calls<void>::InstV; t.CallVoidMethodA = Calls<void>::InstA; t.CallStaticVoidMethod = Calls<void>::Stat; t.CallStaticVoidMethodV = Calls<void>::StatV; t.CallStaticVoidMethodA = Calls<void>::StatA;
#undef JC
#define JD(T, N) t.Get##N##Field = Fields<T>::Read; t.Set##N##Field = Fields<T>::Write
  JD(jobject, Object); JD(jboolean, Boolean); JD(jbyte, Byte); JD(jshort, Short); JD(jint, Int); JD(jlong, Long); JD(jfloat, Float); JD(jdouble, Double);
#undef JD
#define JA(T, A, N) t.New##N##Array = Arrays<T, A>::New; t.Get##N##ArrayElements = Arrays<T, A>::Elems; t.Release##N##ArrayElements = Arrays<T, A>::Release; t.Get##N##ArrayRegion = Arrays<T, A>::GetR; t.Set##N##ArrayRegion = Arrays<T, A>::SetR
  JA(jboolean, jbooleanArray, Boolean); JA(jbyte, jbyteArray, Byte); JA(jshort, jshortArray, Short); JA(jint, jintArray, Int); JA(jlong, jlongArray, Long); JA(jfloat, jfloatArray, Float); JA(jdouble, jdoubleArray, Double);
#undef JA
  JF(jsize, GetArrayLength, jarray a) { Host h; V().Enter("GetArrayLength"); Obj* o = V().Get(a, "GetArrayLength"); if (!o->kind) Misuse("not an array"); return (jsize)o->Len(); };
  JF(jobjectArray, NewObjectArray, jsize n, jclass c, jobject init) { Host h; V().Enter("NewObjectArray"); V().GetClass(c, "NewObjectArray"); if (n < 0) Misuse("negative array size"); Obj* o = V().NewArr('L', n); o->mirrors = nullptr; o->ofields["type"] = V().Get(c, "NewObjectArray"); for (auto& e : o->elems) e = V().GetOrNull(init, "NewObjectArray"); return (jobjectArray)V().Local(o); };
  JF(jobject, GetObjectArrayElement, jobjectArray a, jsize i) { Host h; V().Enter("GetObjectArrayElement"); Obj* o = V().Get(a, "GetObjectArrayElement"); if (o->kind != 'L') Misuse("not an array of objects"); if (i < 0 || (size_t)i >= o->elems.size()) { V().ThrowNew("java/lang/ArrayIndexOutOfBoundsException", "index"); return nullptr; } return V().Local(o->elems[i]); };
  JF(void, SetObjectArrayElement, jobjectArray a, jsize i, jobject v) { Host h; V().Enter("SetObjectArrayElement"); Obj* o = V().Get(a, "SetObjectArrayElement"); if (o->kind != 'L') Misuse("not an array of objects"); if (i < 0 || (size_t)i >= o->elems.size()) { V().ThrowNew("java/lang/ArrayIndexOutOfBoundsException", "index"); return; } o->elems[i] = V().GetOrNull(v, "SetObjectArrayElement"); };
  JF(jstring, NewStringUTF, const char* s) { Host h; V().Enter("NewStringUTF"); if (!s) return nullptr; if (!ModifiedUtf8(s)) Misuse("string is not modified UTF-8", s); return (jstring)V().Local(V().NewStr(s)); };
  JF(jsize, GetStringUTFLength, jstring s) { Host h; V().Enter("GetStringUTFLength"); Obj* o = V().Get(s, "GetStringUTFLength"); if (!o->has_str) Misuse("not a string"); return (jsize)o->str.size(); };
  JF(const char*, GetStringUTFChars, jstring s, jboolean* copy) { Host h; V().Enter("GetStringUTFChars"); Obj* o = V().Get(s, "GetStringUTFChars"); if (!o->has_str) Misuse("not a string"); auto m = std::make_unique<char[]>(o->str.size() + 1); std::memcpy(m.get(), o->str.c_str(), o->str.size() + 1); const char* p = m.get(); V().pins[p] = Pin{o, std::move(m), o->str.size(), true, false}; if (copy) *copy = JNI_TRUE; return p; };
  JF(void, ReleaseStringUTFChars, jstring s, const char* p) { Host h; V().Enter("ReleaseStringUTFChars", true); Obj* o = V().Get(s, "ReleaseStringUTFChars"); auto it = V().pins.find(p); if (it == V().pins.end() || it->second.obj != o || !it->second.is_string) Misuse("released a string that was not held"); V().pins.erase(it); };
  JF(void, GetStringUTFRegion, jstring s, jsize b, jsize n, char* out) { Host h; V().Enter("GetStringUTFRegion"); Obj* o = V().Get(s, "GetStringUTFRegion"); if (b < 0 || n < 0 || (size_t)b + n > o->str.size()) { V().ThrowNew("java/lang/StringIndexOutOfBoundsException", "range"); return; } std::memcpy(out, o->str.data() + b, n); out[n] = 0; };
  JF(jobject, NewDirectByteBuffer, void* p, jlong n) { Host h; V().Enter("NewDirectByteBuffer"); if (!p) Misuse("null address of a buffer"); if (n < 0 || n > INT32_MAX) Misuse("size of a buffer"); Obj* o = V().NewObj(V().Find("java/nio/ByteBuffer")); o->addr = p; o->cap = n; return V().Local(o); };
  JF(void*, GetDirectBufferAddress, jobject b) { Host h; V().Enter("GetDirectBufferAddress"); return V().Get(b, "GetDirectBufferAddress")->addr; };
  JF(jlong, GetDirectBufferCapacity, jobject b) { Host h; V().Enter("GetDirectBufferCapacity"); Obj* o = V().Get(b, "GetDirectBufferCapacity"); return o->addr ? o->cap : -1; };
  JF(void*, GetPrimitiveArrayCritical, jarray a, jboolean* copy) { Host h; V().Enter("GetPrimitiveArrayCritical", false, true); Obj* o = V().Get(a, "GetPrimitiveArrayCritical"); size_t n = o->data.size(); auto m = std::make_unique<char[]>(n ? n : 1); if (n) std::memcpy(m.get(), o->data.data(), n); char* p = m.get(); V().pins[p] = Pin{o, std::move(m), n, false, true}; V().critical++; if (copy) *copy = JNI_TRUE; return p; };
  JF(void, ReleasePrimitiveArrayCritical, jarray a, void* p, jint mode) { Host h; V().Enter("ReleasePrimitiveArrayCritical", true, true); Obj* o = V().Get(a, "ReleasePrimitiveArrayCritical"); auto it = V().pins.find(p); if (it == V().pins.end() || it->second.obj != o) Misuse("released elements that were not held"); if (mode != JNI_ABORT && it->second.n) std::memcpy(o->data.data(), p, it->second.n); if (mode != JNI_COMMIT) { V().pins.erase(it); V().critical--; } };
  for (const char* n : {"java/lang/Object"}) Define(n, nullptr);
  for (const char* n : {"java/lang/Class", "java/lang/String", "java/lang/Throwable", "java/nio/ByteBuffer", "[Z", "[B", "[S", "[I", "[J", "[F", "[D", "[L"}) Define(n);
  Define("java/lang/Exception", "java/lang/Throwable"); Define("java/lang/Error", "java/lang/Throwable");
  Define("java/lang/RuntimeException", "java/lang/Exception");
  for (const char* n : {"java/lang/IllegalStateException", "java/lang/IllegalArgumentException", "java/util/NoSuchElementException", "java/lang/IndexOutOfBoundsException", "java/lang/UnsupportedOperationException", "java/lang/ArithmeticException", "java/lang/NullPointerException"}) Define(n, "java/lang/RuntimeException");
  Define("java/lang/ArrayIndexOutOfBoundsException", "java/lang/IndexOutOfBoundsException"); Define("java/lang/StringIndexOutOfBoundsException", "java/lang/IndexOutOfBoundsException");
  Define("java/lang/NumberFormatException", "java/lang/IllegalArgumentException"); Define("java/util/InputMismatchException", "java/util/NoSuchElementException");
  Define("java/util/concurrent/CancellationException", "java/lang/IllegalStateException");
  for (const char* n : {"java/lang/NoSuchMethodError", "java/lang/NoSuchFieldError", "java/lang/NoClassDefFoundError", "java/lang/OutOfMemoryError"}) Define(n, "java/lang/Error");
  Def("java/lang/Throwable", "getMessage", "()Ljava/lang/String;", [](Vm& v, Obj* o, const Args&) { jvalue r; r.l = o->has_str ? v.Local(v.NewStr(o->str)) : nullptr; return r; });
  Def("java/lang/Throwable", "toString", "()Ljava/lang/String;", [](Vm& v, Obj* o, const Args&) { jvalue r; r.l = v.Local(v.NewStr(o->cls->name + ": " + o->str)); return r; });
}
}  // namespace jvm
#endif

// The C++ interface of the V8 the library was written for (3.x), on top of the V8 inside the installed node.
// Used with -Dv8=oldv8, so that the names do not meet those of the real V8; oldv8.cpp is compiled without it.
#ifndef VERIF_OLDV8_HPP
#define VERIF_OLDV8_HPP
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace oldv8 {
struct Ref;                                    // a counted reference to something of the real V8
void ref_inc(Ref*); void ref_dec(Ref*);
struct Holder { Ref* r; Holder(Ref* x = nullptr) : r(x) {} Holder(const Holder& o) : r(o.r) { if (r) ref_inc(r); } Holder& operator=(const Holder& o) { if (o.r) ref_inc(o.r); if (r) ref_dec(r); r = o.r; return *this; } ~Holder() { if (r) ref_dec(r); } };

struct Data { Holder h; };                     // every type is a view of a Holder and adds nothing to it
template <class T> class Local; template <class T> class Persistent;
template <class T> class Handle {
public:
    Data v;
    Handle() {} explicit Handle(Ref* r) { v.h = Holder(r); }
    template <class S> Handle(const Handle<S>& o) { T* check = static_cast<S*>(nullptr); (void)check; v.h = o.v.h; }
    bool IsEmpty() const { return !v.h.r; } void Clear() { v.h = Holder(); } T* operator->() const { return reinterpret_cast<T*>(const_cast<Data*>(&v)); } T* operator*() const { return reinterpret_cast<T*>(const_cast<Data*>(&v)); }
    template <class S> static Handle<T> Cast(const Handle<S>& o) { Handle<T> r; r.v.h = o.v.h; return r; }
    template <class S> Handle<S> As() const { return Handle<S>::Cast(*this); }
    template <class S> bool operator==(const Handle<S>& o) const { return v.h.r == o.v.h.r; } template <class S> bool operator!=(const Handle<S>& o) const { return !(*this == o); }
};
template <class T> class Local : public Handle<T> {
public:
    Local() {} explicit Local(Ref* r) : Handle<T>(r) {} template <class S> Local(const Local<S>& o) : Handle<T>(o) {}
    static Local<T> New(const Handle<T>& o) { Local<T> r; r.v.h = o.v.h; return r; }
    template <class S> static Local<T> Cast(const Handle<S>& o) { Local<T> r; r.v.h = o.v.h; return r; }
    template <class S> Local<S> As() const { return Local<S>::Cast(*this); }
};
class Value;
typedef void (*WeakReferenceCallback)(Persistent<Value> object, void* parameter);
Ref* ref_copy(Ref*); void ref_dispose(Ref*); void ref_weak(Ref*, void*, WeakReferenceCallback);
template <class T> class Persistent : public Handle<T> {
public:
    Persistent() {} explicit Persistent(Ref* r) : Handle<T>(r) {} template <class S> Persistent(const Persistent<S>& o) : Handle<T>(o) {}
    static Persistent<T> New(const Handle<T>& o) { return Persistent<T>(ref_copy(o.v.h.r)); }
    template <class S> static Persistent<T> Cast(const Handle<S>& o) { Persistent<T> r; r.v.h = o.v.h; return r; }
    void Dispose() { if (this->v.h.r) ref_dispose(this->v.h.r); } void MakeWeak(void* p, WeakReferenceCallback cb) { ref_weak(this->v.h.r, p, cb); }
};

class String; class Boolean; class Number; class Integer; class Int32; class Uint32; class Object; class Array; class Function; class External;
class Value : public Data { public:
    bool IsUndefined() const; bool IsNull() const; bool IsTrue() const; bool IsFalse() const; bool IsString() const; bool IsFunction() const; bool IsArray() const; bool IsObject() const; bool IsBoolean() const; bool IsNumber() const; bool IsExternal() const; bool IsInt32() const; bool IsUint32() const;
    Local<String> ToString() const; Local<Boolean> ToBoolean() const; Local<Object> ToObject() const; Local<Number> ToNumber() const; Local<Integer> ToInteger() const;
    bool BooleanValue() const; double NumberValue() const; int64_t IntegerValue() const; uint32_t Uint32Value() const; int32_t Int32Value() const; };
class Primitive : public Value {};
class Boolean : public Primitive { public: bool Value() const; static Handle<Boolean> New(bool); };
class String : public Primitive { public:
    int Length() const; int Utf8Length() const; enum WriteOptions { NO_OPTIONS = 0 };
    int Write(uint16_t* buffer, int start = 0, int length = -1, WriteOptions = NO_OPTIONS) const; int WriteUtf8(char* buffer, int length = -1, int* nchars = nullptr, WriteOptions = NO_OPTIONS) const; int WriteAscii(char* buffer, int start = 0, int length = -1, WriteOptions = NO_OPTIONS) const;
    static Local<String> New(const char*, int length = -1); static Local<String> New(const uint16_t*, int length = -1); static Local<String> NewSymbol(const char*, int length = -1); static Local<String> Concat(Handle<String>, Handle<String>); static Local<String> Empty();
    class Utf8Value { std::string s; bool ok; public: explicit Utf8Value(Handle<oldv8::Value>); char* operator*() { return ok ? &s[0] : nullptr; } const char* operator*() const { return ok ? s.c_str() : nullptr; } int length() const { return (int)s.size(); } };
    class AsciiValue { std::string s; bool ok; public: explicit AsciiValue(Handle<oldv8::Value>); char* operator*() { return ok ? &s[0] : nullptr; } const char* operator*() const { return ok ? s.c_str() : nullptr; } int length() const { return (int)s.size(); } };
};
class Number : public Primitive { public: double Value() const; static Local<Number> New(double); };
class Integer : public Number { public: int64_t Value() const; static Local<Integer> New(int32_t); static Local<Integer> NewFromUnsigned(uint32_t); };
class Int32 : public Integer { public: int32_t Value() const; };
class Uint32 : public Integer { public: uint32_t Value() const; };
class Object : public Value { public:
    static Local<Object> New(); bool Set(Handle<oldv8::Value> key, Handle<oldv8::Value> value); bool Set(uint32_t index, Handle<oldv8::Value> value); Local<oldv8::Value> Get(Handle<oldv8::Value> key); Local<oldv8::Value> Get(uint32_t index); bool Has(Handle<String>); bool Has(uint32_t); bool Delete(Handle<String>);
    bool HasOwnProperty(Handle<String>); bool HasRealNamedProperty(Handle<String>); Local<oldv8::Value> GetRealNamedProperty(Handle<String>); Local<Array> GetPropertyNames(); Local<Array> GetOwnPropertyNames(); int InternalFieldCount(); Local<oldv8::Value> GetInternalField(int); void SetInternalField(int, Handle<oldv8::Value>); void* GetPointerFromInternalField(int); void SetPointerInInternalField(int, void*); };
class Array : public Object { public: uint32_t Length() const; static Local<Array> New(int length = 0); };
class Function : public Object { public: Local<oldv8::Value> Call(Handle<Object> recv, int argc, Handle<oldv8::Value> argv[]); Local<Object> NewInstance() const; };
class External : public Value { public: void* Value() const; static Local<External> New(void*); };
Handle<Primitive> Undefined(); Handle<Primitive> Null(); Handle<Boolean> True(); Handle<Boolean> False();
Handle<Value> ThrowException(Handle<Value>);
struct Exception { static Local<Value> Error(Handle<String>); static Local<Value> TypeError(Handle<String>); static Local<Value> RangeError(Handle<String>); };

class Arguments { public: std::vector<Local<Value>> a; Local<Object> self, holder; int Length() const { return (int)a.size(); } Local<Value> operator[](int i) const { if (i < 0 || i >= Length()) return Local<Value>::Cast(Undefined()); return a[i]; } Local<Object> This() const { return self; } Local<Object> Holder() const { return holder; } };
class AccessorInfo { public: Local<Object> self, holder; Local<Object> This() const { return self; } Local<Object> Holder() const { return holder; } };
typedef Handle<Value> (*InvocationCallback)(const Arguments&);
typedef Handle<Value> (*AccessorGetter)(Local<String>, const AccessorInfo&);
typedef void (*AccessorSetter)(Local<String>, Local<Value>, const AccessorInfo&);
typedef Handle<Value> (*NamedPropertyGetter)(Local<String>, const AccessorInfo&);
typedef Handle<Value> (*NamedPropertySetter)(Local<String>, Local<Value>, const AccessorInfo&);
typedef Handle<Integer> (*NamedPropertyQuery)(Local<String>, const AccessorInfo&);
typedef Handle<Boolean> (*NamedPropertyDeleter)(Local<String>, const AccessorInfo&);
typedef Handle<Array> (*NamedPropertyEnumerator)(const AccessorInfo&);
typedef Handle<Value> (*IndexedPropertyGetter)(uint32_t, const AccessorInfo&);
typedef Handle<Value> (*IndexedPropertySetter)(uint32_t, Local<Value>, const AccessorInfo&);
typedef Handle<Integer> (*IndexedPropertyQuery)(uint32_t, const AccessorInfo&);
typedef Handle<Boolean> (*IndexedPropertyDeleter)(uint32_t, const AccessorInfo&);
typedef Handle<Array> (*IndexedPropertyEnumerator)(const AccessorInfo&);
enum PropertyAttribute { None = 0, ReadOnly = 1, DontEnum = 2, DontDelete = 4 };

class Template : public Data { public: void Set(Handle<String> name, Handle<Data> value, PropertyAttribute = None); void Set(const char* name, Handle<Data> value) { Set(String::New(name), value); } };
class FunctionTemplate : public Template { public: static Local<FunctionTemplate> New(InvocationCallback = nullptr); Local<Function> GetFunction(); };
class ObjectTemplate : public Template { public:
    static Local<ObjectTemplate> New(); Local<Object> NewInstance(); void SetAccessor(Handle<String> name, AccessorGetter, AccessorSetter = nullptr, Handle<Value> data = Handle<Value>(), int settings = 0, PropertyAttribute = None);
    void SetNamedPropertyHandler(NamedPropertyGetter, NamedPropertySetter = nullptr, NamedPropertyQuery = nullptr, NamedPropertyDeleter = nullptr, NamedPropertyEnumerator = nullptr);
    void SetIndexedPropertyHandler(IndexedPropertyGetter, IndexedPropertySetter = nullptr, IndexedPropertyQuery = nullptr, IndexedPropertyDeleter = nullptr, IndexedPropertyEnumerator = nullptr); void SetInternalFieldCount(int); int InternalFieldCount(); };
class HandleScope { public: HandleScope() {} template <class T> Local<T> Close(Handle<T> v) { return Local<T>::New(v); } private: HandleScope(const HandleScope&); };
class Context : public Data { public: static Persistent<Context> New(void* = nullptr, Handle<ObjectTemplate> = Handle<ObjectTemplate>(), Handle<Value> = Handle<Value>()); Local<Object> Global(); void Enter(); void Exit(); class Scope { Handle<Context> c; public: explicit Scope(Handle<Context> x) : c(x) { c->Enter(); } ~Scope() { c->Exit(); } }; };
class Message : public Data { public: Local<String> Get() const; Local<String> GetSourceLine() const; Handle<Value> GetScriptResourceName() const; int GetLineNumber() const; int GetStartColumn() const; int GetEndColumn() const; };
class TryCatch { public: TryCatch* outer; Local<Value> exception; Local<oldv8::Message> message; bool caught; TryCatch(); ~TryCatch(); bool HasCaught() const { return caught; } Local<Value> Exception() const { return exception; } Local<oldv8::Message> Message() const { return message; } void Reset() { caught = false; } };
class Script : public Data { public: static Local<Script> Compile(Handle<String> source, Handle<Value> name = Handle<Value>()); static Local<Script> New(Handle<String> source, Handle<Value> name = Handle<Value>()) { return Compile(source, name); } Local<Value> Run(); };
struct V8 { static bool IdleNotification(int = 1000); static const char* GetVersion() { return "3.x"; } };
} // namespace oldv8
#endif

// See oldv8.hpp. Also makes the program's main() (renamed osmjs_main) callable from node.
#include <node.h>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include "oldv8.hpp"
namespace R = ::v8;

namespace oldv8 {
static R::Isolate* iso() { return R::Isolate::GetCurrent(); }
static R::Local<R::Context> ctx() { return iso()->GetCurrentContext(); }
struct Ref { int n = 1; R::Global<R::Data> g; R::Local<R::Message>* msg = nullptr; R::Global<R::Message> m; WeakReferenceCallback cb = nullptr; void* param = nullptr; };
void ref_inc(Ref* r) { ++r->n; }
void ref_dec(Ref* r) { if (--r->n == 0) delete r; }
template <class T> static Ref* make(R::Local<T> l) { if (l.IsEmpty()) return nullptr; Ref* r = new Ref; r->g.Reset(iso(), l.template As<R::Data>()); return r; }
template <class T> static R::Local<T> get(const Holder& h) { return R::Local<R::Data>::New(iso(), h.r->g).template As<T>(); }
template <class T, class S> static Local<T> local(R::Local<S> l) { return Local<T>(make(l)); }
template <class T, class S> static Local<T> local(R::MaybeLocal<S> l) { R::Local<S> x; return l.ToLocal(&x) ? Local<T>(make(x)) : Local<T>(); }
Ref* ref_copy(Ref* o) { if (!o) return nullptr; R::HandleScope s(iso()); return make(R::Local<R::Data>::New(iso(), o->g)); }
void ref_dispose(Ref* r) { r->g.Reset(); }
static int weak_alive = 0;
int weak_objects() { return weak_alive; }
void ref_weak(Ref* r, void* p, WeakReferenceCallback cb) {
    ref_inc(r); r->cb = cb; r->param = p; ++weak_alive;
    r->g.SetWeak(r, [](const R::WeakCallbackInfo<Ref>& i) { Ref* r = i.GetParameter(); r->g.Reset(); i.SetSecondPassCallback([](const R::WeakCallbackInfo<Ref>& i) { Ref* r = i.GetParameter(); --weak_alive; Persistent<Value> p; ref_inc(r); p.v.h = Holder(r); r->cb(p, r->param); ref_dec(r); }); }, R::WeakCallbackType::kParameter);
}
#define S R::HandleScope scope(iso())
#define VAL get<R::Value>(h)
bool Value::IsUndefined() const { S; return VAL->IsUndefined(); } bool Value::IsNull() const { S; return VAL->IsNull(); } bool Value::IsTrue() const { S; return VAL->IsTrue(); } bool Value::IsFalse() const { S; return VAL->IsFalse(); } bool Value::IsString() const { S; return VAL->IsString(); } bool Value::IsFunction() const { S; return VAL->IsFunction(); } bool Value::IsArray() const { S; return VAL->IsArray(); } bool Value::IsObject() const { S; return VAL->IsObject(); } bool Value::IsBoolean() const { S; return VAL->IsBoolean(); } bool Value::IsNumber() const { S; return VAL->IsNumber(); } bool Value::IsExternal() const { S; return VAL->IsExternal(); } bool Value::IsInt32() const { S; return VAL->IsInt32(); } bool Value::IsUint32() const { S; return VAL->IsUint32(); }
Local<String> Value::ToString() const { S; return local<String>(VAL->ToString(ctx())); } Local<Boolean> Value::ToBoolean() const { S; return local<Boolean>(VAL->ToBoolean(iso())); } Local<Object> Value::ToObject() const { S; return local<Object>(VAL->ToObject(ctx())); } Local<Number> Value::ToNumber() const { S; return local<Number>(VAL->ToNumber(ctx())); } Local<Integer> Value::ToInteger() const { S; return local<Integer>(VAL->ToInteger(ctx())); }
bool Value::BooleanValue() const { S; return VAL->BooleanValue(iso()); } double Value::NumberValue() const { S; return VAL->NumberValue(ctx()).FromMaybe(0); } int64_t Value::IntegerValue() const { S; return VAL->IntegerValue(ctx()).FromMaybe(0); } uint32_t Value::Uint32Value() const { S; return VAL->Uint32Value(ctx()).FromMaybe(0); } int32_t Value::Int32Value() const { S; return VAL->Int32Value(ctx()).FromMaybe(0); }
bool Boolean::Value() const { S; return get<R::Boolean>(h)->Value(); } Handle<Boolean> Boolean::New(bool b) { S; return local<Boolean>(R::Boolean::New(iso(), b)); }
int String::Length() const { S; return get<R::String>(h)->Length(); } int String::Utf8Length() const { S; return get<R::String>(h)->Utf8Length(iso()); }
int String::Write(uint16_t* b, int start, int len, WriteOptions) const { S; return get<R::String>(h)->Write(iso(), b, start, len); } int String::WriteUtf8(char* b, int len, int* n, WriteOptions) const { S; return get<R::String>(h)->WriteUtf8(iso(), b, len, n); } int String::WriteAscii(char* b, int start, int len, WriteOptions) const { S; return get<R::String>(h)->WriteOneByte(iso(), (uint8_t*)b, start, len); }
Local<String> String::New(const char* s, int n) { S; return local<String>(R::String::NewFromUtf8(iso(), s, R::NewStringType::kNormal, n)); } Local<String> String::New(const uint16_t* s, int n) { S; return local<String>(R::String::NewFromTwoByte(iso(), s, R::NewStringType::kNormal, n)); } Local<String> String::NewSymbol(const char* s, int n) { S; return local<String>(R::String::NewFromUtf8(iso(), s, R::NewStringType::kInternalized, n)); } Local<String> String::Concat(Handle<String> a, Handle<String> b) { S; return local<String>(R::String::Concat(iso(), get<R::String>(a.v.h), get<R::String>(b.v.h))); } Local<String> String::Empty() { S; return local<String>(R::String::Empty(iso())); }
String::Utf8Value::Utf8Value(Handle<oldv8::Value> v) : ok(false) { if (v.IsEmpty()) return; S; R::String::Utf8Value u(iso(), get<R::Value>(v.v.h)); if (*u) { s.assign(*u, u.length()); ok = true; } }
String::AsciiValue::AsciiValue(Handle<oldv8::Value> v) : ok(false) { if (v.IsEmpty()) return; S; R::String::Utf8Value u(iso(), get<R::Value>(v.v.h)); if (*u) { s.assign(*u, u.length()); ok = true; } }
double Number::Value() const { S; return get<R::Number>(h)->Value(); } Local<Number> Number::New(double d) { S; return local<Number>(R::Number::New(iso(), d)); } int64_t Integer::Value() const { S; return get<R::Integer>(h)->Value(); } Local<Integer> Integer::New(int32_t i) { S; return local<Integer>(R::Integer::New(iso(), i)); } Local<Integer> Integer::NewFromUnsigned(uint32_t i) { S; return local<Integer>(R::Integer::NewFromUnsigned(iso(), i)); } int32_t Int32::Value() const { return Int32Value(); } uint32_t Uint32::Value() const { return Uint32Value(); }
#define OBJ get<R::Object>(h)
Local<Object> Object::New() { S; return local<Object>(R::Object::New(iso())); } bool Object::Set(Handle<oldv8::Value> k, Handle<oldv8::Value> v) { S; return OBJ->Set(ctx(), get<R::Value>(k.v.h), get<R::Value>(v.v.h)).FromMaybe(false); } bool Object::Set(uint32_t i, Handle<oldv8::Value> v) { S; return OBJ->Set(ctx(), i, get<R::Value>(v.v.h)).FromMaybe(false); } Local<oldv8::Value> Object::Get(Handle<oldv8::Value> k) { S; return local<oldv8::Value>(OBJ->Get(ctx(), get<R::Value>(k.v.h))); } Local<oldv8::Value> Object::Get(uint32_t i) { S; return local<oldv8::Value>(OBJ->Get(ctx(), i)); } bool Object::Has(Handle<String> k) { S; return OBJ->Has(ctx(), get<R::Value>(k.v.h)).FromMaybe(false); } bool Object::Has(uint32_t i) { S; return OBJ->Has(ctx(), i).FromMaybe(false); } bool Object::Delete(Handle<String> k) { S; return OBJ->Delete(ctx(), get<R::Value>(k.v.h)).FromMaybe(false); }
bool Object::HasOwnProperty(Handle<String> k) { S; return OBJ->HasOwnProperty(ctx(), get<R::Name>(k.v.h)).FromMaybe(false); } bool Object::HasRealNamedProperty(Handle<String> k) { S; return OBJ->HasRealNamedProperty(ctx(), get<R::Name>(k.v.h)).FromMaybe(false); } Local<oldv8::Value> Object::GetRealNamedProperty(Handle<String> k) { S; return local<oldv8::Value>(OBJ->GetRealNamedProperty(ctx(), get<R::Name>(k.v.h))); } Local<Array> Object::GetPropertyNames() { S; return local<Array>(OBJ->GetPropertyNames(ctx())); } Local<Array> Object::GetOwnPropertyNames() { S; return local<Array>(OBJ->GetOwnPropertyNames(ctx())); } int Object::InternalFieldCount() { S; return OBJ->InternalFieldCount(); }
Local<oldv8::Value> Object::GetInternalField(int i) { S; return local<oldv8::Value>(OBJ->GetInternalField(i).As<R::Value>()); } void Object::SetInternalField(int i, Handle<oldv8::Value> v) { S; OBJ->SetInternalField(i, get<R::Value>(v.v.h)); } void* Object::GetPointerFromInternalField(int i) { S; return OBJ->GetInternalField(i).As<R::Value>().As<R::External>()->Value(); } void Object::SetPointerInInternalField(int i, void* p) { S; OBJ->SetInternalField(i, R::External::New(iso(), p)); }
uint32_t Array::Length() const { S; return get<R::Array>(h)->Length(); } Local<Array> Array::New(int n) { S; return local<Array>(R::Array::New(iso(), n)); }

// exceptions of scripts end up in the innermost TryCatch, or are reported
static TryCatch* top = nullptr;
TryCatch::TryCatch() : outer(top), caught(false) { top = this; } TryCatch::~TryCatch() { top = outer; }
static void note(R::TryCatch& t) { if (!t.HasCaught()) return; if (top) { top->caught = true; top->exception = local<Value>(t.Exception()); Ref* r = nullptr; if (!t.Message().IsEmpty()) { r = new Ref; r->m.Reset(iso(), t.Message()); } top->message = Local<Message>(r); } else { R::String::Utf8Value u(iso(), t.Exception()); fprintf(stderr, "Uncaught exception in Javascript: %s\n", *u ? *u : "?"); } }
#define MSG R::Local<R::Message>::New(iso(), h.r->m)
Local<String> Message::Get() const { S; return local<String>(MSG->Get()); } Local<String> Message::GetSourceLine() const { S; return local<String>(MSG->GetSourceLine(ctx())); } Handle<Value> Message::GetScriptResourceName() const { S; return local<Value>(MSG->GetScriptResourceName()); } int Message::GetLineNumber() const { S; return MSG->GetLineNumber(ctx()).FromMaybe(0); } int Message::GetStartColumn() const { S; return MSG->GetStartColumn(); } int Message::GetEndColumn() const { S; return MSG->GetEndColumn(); }

Local<oldv8::Value> Function::Call(Handle<Object> recv, int argc, Handle<oldv8::Value> argv[]) { S; R::TryCatch t(iso()); std::vector<R::Local<R::Value>> a; for (int i = 0; i < argc; ++i) a.push_back(get<R::Value>(argv[i].v.h)); auto r = get<R::Function>(h)->Call(ctx(), get<R::Value>(recv.v.h), argc, a.data()); if (t.HasCaught()) note(t); return local<oldv8::Value>(r); }
Local<Object> Function::NewInstance() const { S; return local<Object>(get<R::Function>(h)->NewInstance(ctx())); }
void* External::Value() const { S; return get<R::External>(h)->Value(); } Local<External> External::New(void* p) { S; return local<External>(R::External::New(iso(), p)); }
Handle<Primitive> Undefined() { S; return local<Primitive>(R::Undefined(iso()).As<R::Value>()); } Handle<Primitive> Null() { S; return local<Primitive>(R::Null(iso()).As<R::Value>()); } Handle<Boolean> True() { return Boolean::New(true); } Handle<Boolean> False() { return Boolean::New(false); }
Handle<Value> ThrowException(Handle<Value> e) { S; iso()->ThrowException(get<R::Value>(e.v.h)); return Undefined(); }
Local<Value> Exception::Error(Handle<String> s) { S; return local<Value>(R::Exception::Error(get<R::String>(s.v.h))); } Local<Value> Exception::TypeError(Handle<String> s) { S; return local<Value>(R::Exception::TypeError(get<R::String>(s.v.h))); } Local<Value> Exception::RangeError(Handle<String> s) { S; return local<Value>(R::Exception::RangeError(get<R::String>(s.v.h))); }

// callbacks: an exception of C++ cannot pass through V8, neither then nor now
template <class F> static auto guarded(F f) -> decltype(f()) { try { return f(); } catch (const std::exception& e) { fprintf(stderr, "terminate: exception thrown through Javascript: %s\n", e.what()); } catch (...) { fprintf(stderr, "terminate: exception thrown through Javascript\n"); } fflush(stderr); abort(); }
static void* fn(R::Local<R::Value> v, int i = -1) { if (i >= 0) v = v.As<R::Array>()->Get(ctx(), i).ToLocalChecked(); return v->IsExternal() ? v.As<R::External>()->Value() : nullptr; }
template <class I> static AccessorInfo info(const I& i) { AccessorInfo a; a.self = local<Object>(i.This()); a.holder = local<Object>(i.Holder()); return a; }
static R::Local<R::Value> fp(void* p) { return p ? R::External::New(iso(), p).As<R::Value>() : R::Undefined(iso()).As<R::Value>(); }
static void call(const R::FunctionCallbackInfo<R::Value>& i) { S; Arguments a; for (int k = 0; k < i.Length(); ++k) a.a.push_back(local<Value>(i[k])); a.self = local<Object>(i.This()); a.holder = local<Object>(i.Holder()); auto f = (InvocationCallback)fn(i.Data()); if (!f) return; Handle<Value> r = guarded([&] { return f(a); }); if (!r.IsEmpty()) i.GetReturnValue().Set(get<R::Value>(r.v.h)); }
void Template::Set(Handle<String> n, Handle<Data> v, PropertyAttribute a) { S; get<R::Template>(h)->Set(get<R::Name>(n.v.h), get<R::Data>(v.v.h), (R::PropertyAttribute)a); }
Local<FunctionTemplate> FunctionTemplate::New(InvocationCallback f) { S; return local<FunctionTemplate>(R::FunctionTemplate::New(iso(), call, fp((void*)f))); } Local<Function> FunctionTemplate::GetFunction() { S; return local<Function>(get<R::FunctionTemplate>(h)->GetFunction(ctx())); }
Local<ObjectTemplate> ObjectTemplate::New() { S; return local<ObjectTemplate>(R::ObjectTemplate::New(iso())); } Local<Object> ObjectTemplate::NewInstance() { S; return local<Object>(get<R::ObjectTemplate>(h)->NewInstance(ctx())); }
static void acc_get(R::Local<R::Name> n, const R::PropertyCallbackInfo<R::Value>& i) { S; auto f = (AccessorGetter)fn(i.Data(), 0); AccessorInfo a = info(i); Local<String> s = local<String>(n); Handle<Value> r = guarded([&] { return f(s, a); }); if (!r.IsEmpty()) i.GetReturnValue().Set(get<R::Value>(r.v.h)); }
static void acc_set(R::Local<R::Name> n, R::Local<R::Value> v, const R::PropertyCallbackInfo<void>& i) { S; auto f = (AccessorSetter)fn(i.Data(), 1); AccessorInfo a = info(i); Local<String> s = local<String>(n); Local<Value> x = local<Value>(v); guarded([&] { f(s, x, a); return 0; }); }
static R::Local<R::Value> pack(std::vector<void*> v) { R::Local<R::Array> a = R::Array::New(iso(), v.size()); for (size_t i = 0; i < v.size(); ++i) a->Set(ctx(), i, fp(v[i])).FromJust(); return a; }
void ObjectTemplate::SetAccessor(Handle<String> n, AccessorGetter g, AccessorSetter s, Handle<Value>, int, PropertyAttribute a) { S; get<R::ObjectTemplate>(h)->SetNativeDataProperty(get<R::Name>(n.v.h), acc_get, s ? acc_set : nullptr, pack({(void*)g, (void*)s}), (R::PropertyAttribute)a); }
template <class L> static R::Intercepted given(const Handle<L>& r, R::ReturnValue<R::Value> v) { if (r.IsEmpty()) return R::Intercepted::kNo; v.Set(get<R::Value>(r.v.h)); return R::Intercepted::kYes; }
void ObjectTemplate::SetNamedPropertyHandler(NamedPropertyGetter g, NamedPropertySetter, NamedPropertyQuery, NamedPropertyDeleter, NamedPropertyEnumerator e) {
    S; R::NamedPropertyGetterCallback get_ = [](R::Local<R::Name> n, const R::PropertyCallbackInfo<R::Value>& i) -> R::Intercepted { S; auto f = (NamedPropertyGetter)fn(i.Data(), 0); AccessorInfo a = info(i); Local<String> s = local<String>(n); return given(guarded([&] { return f(s, a); }), i.GetReturnValue()); };
    R::NamedPropertyEnumeratorCallback en_ = nullptr; if (e) en_ = [](const R::PropertyCallbackInfo<R::Array>& i) { S; auto f = (NamedPropertyEnumerator)fn(i.Data(), 1); AccessorInfo a = info(i); Handle<Array> r = guarded([&] { return f(a); }); if (!r.IsEmpty()) i.GetReturnValue().Set(get<R::Array>(r.v.h)); }; R::NamedPropertyHandlerConfiguration c(get_, nullptr, nullptr, nullptr, en_, pack({(void*)g, (void*)e}), R::PropertyHandlerFlags::kOnlyInterceptStrings); get<R::ObjectTemplate>(h)->SetHandler(c);
}
void ObjectTemplate::SetIndexedPropertyHandler(IndexedPropertyGetter g, IndexedPropertySetter, IndexedPropertyQuery, IndexedPropertyDeleter, IndexedPropertyEnumerator e) {
    S; R::IndexedPropertyGetterCallbackV2 get_ = [](uint32_t n, const R::PropertyCallbackInfo<R::Value>& i) -> R::Intercepted { S; auto f = (IndexedPropertyGetter)fn(i.Data(), 0); AccessorInfo a = info(i); return given(guarded([&] { return f(n, a); }), i.GetReturnValue()); };
    R::NamedPropertyEnumeratorCallback en_ = nullptr; if (e) en_ = [](const R::PropertyCallbackInfo<R::Array>& i) { S; auto f = (IndexedPropertyEnumerator)fn(i.Data(), 1); AccessorInfo a = info(i); Handle<Array> r = guarded([&] { return f(a); }); if (!r.IsEmpty()) i.GetReturnValue().Set(get<R::Array>(r.v.h)); }; R::IndexedPropertyHandlerConfiguration c(get_, nullptr, nullptr, nullptr, en_, pack({(void*)g, (void*)e})); get<R::ObjectTemplate>(h)->SetHandler(c);
}
void ObjectTemplate::SetInternalFieldCount(int n) { S; get<R::ObjectTemplate>(h)->SetInternalFieldCount(n); } int ObjectTemplate::InternalFieldCount() { S; return get<R::ObjectTemplate>(h)->InternalFieldCount(); }
Persistent<Context> Context::New(void*, Handle<ObjectTemplate> t, Handle<Value>) { S; return Persistent<Context>(make(R::Context::New(iso(), nullptr, t.IsEmpty() ? R::MaybeLocal<R::ObjectTemplate>() : get<R::ObjectTemplate>(t.v.h)))); } Local<Object> Context::Global() { S; return local<Object>(get<R::Context>(h)->Global()); } static std::vector<R::Global<R::Context>> entered; // (leaving does not need the handle of the context, which may be gone by then)
void Context::Enter() { S; entered.emplace_back(iso(), get<R::Context>(h)); get<R::Context>(h)->Enter(); } void Context::Exit() { S; auto c = R::Local<R::Context>::New(iso(), entered.back()); entered.pop_back(); c->Exit(); }
Local<Script> Script::Compile(Handle<String> s, Handle<Value> n) { S; R::TryCatch t(iso()); R::ScriptOrigin o(n.IsEmpty() ? R::Local<R::Value>() : get<R::Value>(n.v.h)); auto r = R::Script::Compile(ctx(), get<R::String>(s.v.h), n.IsEmpty() ? nullptr : &o); note(t); return local<Script>(r); }
Local<Value> Script::Run() { S; R::TryCatch t(iso()); auto r = get<R::Script>(h)->Run(ctx()); note(t); return local<Value>(r); }
bool V8::IdleNotification(int) { iso()->LowMemoryNotification(); return true; }
} // namespace oldv8

extern "C" int osmjs_main(int argc, char* argv[]);
NODE_MODULE_INIT() {
    R::Isolate* i = context->GetIsolate(); R::Local<R::Array> a = exports.As<R::Object>()->Get(context, R::String::NewFromUtf8Literal(i, "argv")).ToLocalChecked().As<R::Array>(); static std::vector<std::string> s; static std::vector<char*> v;
    for (uint32_t k = 0; k < a->Length(); ++k) { R::String::Utf8Value u(i, a->Get(context, k).ToLocalChecked()); s.emplace_back(*u, u.length()); } for (auto& x : s) v.push_back(&x[0]); v.push_back(nullptr);
    int status; try { status = osmjs_main((int)s.size(), v.data()); } catch (const std::exception& e) { fprintf(stderr, "terminate called after throwing: %s\n", e.what()); fflush(stderr); abort(); } catch (...) { fprintf(stderr, "terminate called\n"); fflush(stderr); abort(); }
    fflush(nullptr); exit(status);
}

#pragma once
#include <functional>
// behaves like an int, but owns memory and knows its own address: a bitwise copy, a use before construction or after destruction is seen
struct Own { Own* self; int* p; Own(int v=0) : self(this),p(new int(v)) {} Own(const Own& o) : self(this),p(new int((int)o)) {} Own(Own&& o) noexcept : self(this),p(o.p) { o.p=nullptr; if (o.self!=&o) p=nullptr;}
   Own& operator=(const Own& o) { int v=(int)o; if (self==this) delete p; self=this; p=new int(v); return *this;} Own& operator=(Own&& o) noexcept { if (&o==this) return *this; if (self==this) delete p; self=this; p=o.self==&o ? o.p : nullptr; o.p=nullptr; return *this;}
   ~Own() { if (self==this) delete p; self=nullptr; p=nullptr;} operator int() const { return self==this && p ? *p : -987654;} };
template <class T> static const char* const owns="";
template <> const char* const owns<Own> =" of elements that own memory";
template <> struct std::hash<Own> { std::size_t operator()(const Own& o) const noexcept { return std::hash<int>{}((int)o);} };

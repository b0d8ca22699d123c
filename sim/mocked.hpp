// The classes that are mocked and spied on.
#pragma once
#include "core.hpp"

// one interface with every kind of signature the library treats differently; the destructor stands mid-table
struct Svc {
    virtual int i0() = 0;
    virtual int i1(int) = 0;
    virtual int i2(int, int) = 0;
    virtual void v0() = 0;
    virtual void v1(int) = 0;
    virtual std::string s1(const std::string &) = 0;
    virtual std::string s2(std::string, int) = 0;
    virtual Val o1(Val) = 0;
    virtual int o2(const Val &, Val) = 0;
    virtual void outp(int, int *) = 0;
    virtual int outr(int &, std::string &) = 0;
    virtual int out4(int &, int *, std::string &, int &) = 0;
    virtual ~Svc() {}
    virtual int ov(int) = 0;
    virtual int ov(int, int) = 0;
    virtual int ov(int) const = 0;
    virtual std::unique_ptr<Val> mo(std::unique_ptr<Val>) = 0;
    virtual int &rr(int) = 0;
    virtual const Val &rv(int) = 0;
    virtual double d2(double, int) = 0;
    virtual int five(int, int, int, int, int) = 0;
    virtual bool b1(Color) = 0;
    virtual int cs(const char *) = 0;
    virtual int rvr(Val &&) = 0;
    virtual std::vector<int> vec(std::vector<int>) = 0;
    virtual int c1(int) const = 0;
    int x;
    std::vector<int> data;
    Val val;
};

// a large virtual table
struct Many {
    virtual ~Many() {}
#define X(N) virtual int m##N(int) = 0;
#define X10(N) X(N##0) X(N##1) X(N##2) X(N##3) X(N##4) X(N##5) X(N##6) X(N##7) X(N##8) X(N##9)
    X10() X10(1) X10(2) X10(3)
#undef X
};

// destructor in first, middle, last position, and inherited
struct D1 { virtual ~D1() {} virtual int a(int) = 0; };
struct D2 { virtual int a(int) = 0; virtual ~D2() noexcept(false) {} virtual int b(int) = 0; };
struct D3 { virtual int a(int) = 0; virtual int b(int) = 0; virtual ~D3() {} };
struct D4 : D3 { virtual int c(int) = 0; int tail; };

// no destructor; every qualifier a method can have
struct Qual {
    virtual int q(int) & = 0;
    virtual int q(int) && = 0;
    virtual int q(int) const & = 0;
    virtual int q(int) const && = 0;
    virtual void vo(int) volatile = 0;
    virtual std::string cv(const std::string &) const volatile = 0;
    virtual int p(int, int) = 0;
    virtual Val lr(Val) & = 0;
    virtual int rr(int) && = 0;
};

// argument types with forms and conditions of their own
struct Cond {
    virtual int l(long) = 0;
    virtual int c(char) = 0;
    virtual void b(bool) = 0;
    virtual int n(char *) = 0;
    virtual double d(double) = 0;
    virtual int is(int, std::string) = 0;
    virtual int mx(int, const std::string &, double) = 0;
    virtual int bc(bool, char, long) = 0;
    virtual int k(const char *, char *) = 0;
};

// many arguments
struct Wide {
    virtual int w6(int, int, int, int, int, int) = 0;
    virtual void w7(int, int, int, int, int, int, int) = 0;
    virtual ~Wide() {}
    virtual std::string w9(int, const std::string &, double, Val, long, char, bool, const Val &, std::string) = 0;
};

// code of its own: state, virtual calls on itself, recursion, exceptions, out arguments
enum { L_ADD, L_TWICE, L_FACT, L_NAME, L_OUTP, L_FAIL, L_ECHO, L_MO, L_CHAIN, L_SCALE, L_METHODS };
struct Leaf {
    virtual int add(int);
    virtual int twice(int);
    virtual int fact(int);
    virtual std::string name(const std::string &);
    virtual void outp(int, int *);
    virtual int fail(int);
    virtual ~Leaf() {}
    virtual Val echo(Val);
    virtual std::unique_ptr<Val> mo(std::unique_ptr<Val>);
    virtual int chain(int, int);
    virtual int scale(int) const;
    int state = 0;
    long pad = 0x5ca1ab1e;
    std::string text = "text that does not fit into the small buffer";
};
struct LeafD : Leaf {
    int fact(int) override;          // the dynamic type overrides one method and adds data
    virtual int extra() { return 42; }
    long tail = 0x7a11;
};
const int NOBJ = 3;

// what an original method does is decided by the interpreter: it checks that the call was expected, makes nested
// virtual calls on the object, and gives back the result and the object's new state
struct OrigRet { int code; bool setOut; int outVal; };
OrigRet simOriginal(const Leaf *self, int method, const ArgRead *a, int n);

void addSvc(std::vector<ClassDesc> &);
void addMany(std::vector<ClassDesc> &);
void addSmall(std::vector<ClassDesc> &);
void addLeaf(std::vector<ClassDesc> &);
void addQual(std::vector<ClassDesc> &);
void addCond(std::vector<ClassDesc> &);
void addWide(std::vector<ClassDesc> &);
void addSvc2(ClassDesc &);
void addSvc3(ClassDesc &);
enum { CL_SVC, CL_MANY, CL_LEAF, CL_D1, CL_D2, CL_D3, CL_D4, CL_QUAL, CL_COND, CL_WIDE, CL_COUNT };
const int GEN_PLAIN = 3;   // the first of the generated classes are plain and always the same

// clients and servers of any element type and layout behind one interface
#pragma once
#include "common.hpp"
struct AnyClient {
    virtual ~AnyClient() {}
    virtual void attach() = 0; virtual void detach() = 0; virtual void close() = 0; virtual bool attached() = 0;
    virtual int rows() = 0; virtual int cols() = 0;
    virtual bool put(int base) = 0;                    // writes payload(base) everywhere
    virtual int get() = 0;                             // 1 if the tensor is payload(base) for expect, 0 refused, -1 other
    virtual bool is(int base) = 0;
    virtual void acquire() = 0; virtual void release() = 0;
    virtual bool readable() = 0;
};
template <class T, int L, class P> struct Acc {
    static bool put(P& p, int base, int r, int c) { Tensor<T, L> t(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) t(i, j) = payload<T>(base, i, j); TRef<T, L> f(t); return p.write(f, 0, 0); }
    // 1: holds payload(base); 0: refused; -1: something else
    static int is(P& p, int base, int r, int c) { Tensor<T, L> t(r, c); TRef<T, L> f(t); if (!p.read(f, 0, 0)) return 0;
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (t(i, j) != payload<T>(base, i, j)) return -1; return 1; }
};
template <class T, int L> struct AClient : AnyClient {
    Client<T, L> c;
    AClient(const std::string& n, const std::string& ns) : c(n, ns, false, VL::V0, true) {}
    void attach() override { c.attach(); } void detach() override { c.detach(); } void close() override { c.close(); }
    bool attached() override { return c.isAttached(); }
    int rows() override { return c.getNRows(); } int cols() override { return c.getNCols(); }
    bool put(int b) override { return Acc<T, L, Client<T, L>>::put(c, b, c.getNRows() < 1 ? 1 : c.getNRows(), c.getNCols() < 1 ? 1 : c.getNCols()); }
    int get() override { return readable(); }
    bool is(int b) override { return Acc<T, L, Client<T, L>>::is(c, b, c.getNRows() < 1 ? 1 : c.getNRows(), c.getNCols() < 1 ? 1 : c.getNCols()) == 1; }
    bool readable() override { Tensor<T, L> t(1, 1); TRef<T, L> f(t); return c.read(f, 0, 0); }
    void acquire() override { c.dataSemAcquire(); } void release() override { c.dataSemRelease(); }
};
inline AnyClient* make_client(int k, const std::string& n, const std::string& ns) {
    switch (k) {
    case 0: return new AClient<float, RowMajor>(n, ns); case 1: return new AClient<float, ColMajor>(n, ns);
    case 2: return new AClient<double, RowMajor>(n, ns); case 3: return new AClient<double, ColMajor>(n, ns);
    case 4: return new AClient<int, RowMajor>(n, ns); case 5: return new AClient<int, ColMajor>(n, ns);
    case 6: return new AClient<bool, RowMajor>(n, ns); case 7: return new AClient<bool, ColMajor>(n, ns);
    }
    return nullptr;
}
struct AnyServer {
    virtual ~AnyServer() {}
    virtual void run() = 0; virtual void stop() = 0; virtual void close() = 0; virtual bool running() = 0; virtual int count() = 0;
    virtual bool put(int base) = 0; virtual int is(int base) = 0; virtual void acquire() = 0; virtual void release() = 0;
};
template <class T, int L> struct AServer : AnyServer {
    Server<T, L> s; int r, c;
    AServer(int r, int c, const std::string& n, const std::string& ns, bool force) : s(r, c, n, ns, false, VL::V0, force, true), r(r), c(c) {}
    void run() override { s.run(); } void stop() override { s.stop(); } void close() override { s.close(); } bool running() override { return s.isRunning(); }
    int count() override { return s.getNClients(); }
    bool put(int b) override { return Acc<T, L, Server<T, L>>::put(s, b, r, c); }
    int is(int b) override { return Acc<T, L, Server<T, L>>::is(s, b, r, c); }
    void acquire() override { s.dataSemAcquire(); } void release() override { s.dataSemRelease(); }
};
inline AnyServer* make_server(int k, int r, int c, const std::string& n, const std::string& ns, bool force = false) {
    switch (k) {
    case 0: return new AServer<float, RowMajor>(r, c, n, ns, force); case 1: return new AServer<float, ColMajor>(r, c, n, ns, force);
    case 2: return new AServer<double, RowMajor>(r, c, n, ns, force); case 3: return new AServer<double, ColMajor>(r, c, n, ns, force);
    case 4: return new AServer<int, RowMajor>(r, c, n, ns, force); case 5: return new AServer<int, ColMajor>(r, c, n, ns, force);
    case 6: return new AServer<bool, RowMajor>(r, c, n, ns, force); case 7: return new AServer<bool, ColMajor>(r, c, n, ns, force);
    }
    return nullptr;
}
static const char* KIND[] = {"float row", "float col", "double row", "double col", "int row", "int col", "bool row", "bool col"};

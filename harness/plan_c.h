#ifndef PLAN_C_H
#define PLAN_C_H
#include "plan.h"
#include "c_shim.h"
//! A plan made by the C interface.
struct PlanC : Plan {
    void *p = nullptr; bool r2c;
    PlanC(void *q, bool r) : p(q), r2c(r) {}
    ~PlanC(){ destroy(); }
    int destroy(){ int e = 0; if (p) e = shim_destroy(p); p = nullptr; return e; }
    long size_inbox() const override{ return shim_size(p, 0); }
    long size_outbox() const override{ return shim_size(p, 1); }
    long size_workspace() const override{ return shim_size(p, 2); }
    long size_comm() const override{ return 0; }
    double factor(int) const override{ return 0; }
    Box inbox() const override{ return Box(); }
    Box outbox() const override{ return Box(); }
    void call(Call const &c) override{ shim_call(p, c.forward, c.dbl, c.real_side or r2c, c.form == 1, c.in, c.out, c.ws, c.scale); }
    std::unique_ptr<Plan> moved() override{ return nullptr; }
};
#endif

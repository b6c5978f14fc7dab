#include "plan_impl.h"
#ifdef PLAN_WIDE
std::unique_ptr<Plan> make_plan_stock_w(PlanSpec const &s){ return build_any<long long, heffte::backend::stock, heffte::backend::stock_cos, heffte::backend::stock_sin, heffte::backend::stock_cos1>(s); }
#else
std::unique_ptr<Plan> make_plan_stock(PlanSpec const &s){ return build_any<int, heffte::backend::stock, heffte::backend::stock_cos, heffte::backend::stock_sin, heffte::backend::stock_cos1>(s); }
#endif

"""z3 through its C API with cffi (fast under PyPy's JIT)."""
import cffi

LIB = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"

ffi = cffi.FFI()
ffi.cdef("""
typedef struct _cfg *Z3_config; typedef struct _ctx *Z3_context; typedef struct _sym *Z3_symbol;
typedef struct _ast *Z3_ast; typedef struct _sort *Z3_sort; typedef struct _fd *Z3_func_decl;
typedef struct _sol *Z3_solver; typedef struct _mod *Z3_model; typedef struct _par *Z3_params;
typedef struct _fi *Z3_func_interp; typedef struct _fe *Z3_func_entry;
Z3_config Z3_mk_config(void); void Z3_del_config(Z3_config);
Z3_context Z3_mk_context_rc(Z3_config); void Z3_del_context(Z3_context);
void Z3_set_param_value(Z3_config, const char*, const char*);
void Z3_set_error_handler(Z3_context, void*); int Z3_get_error_code(Z3_context);
const char* Z3_get_error_msg(Z3_context, int);
void Z3_inc_ref(Z3_context, Z3_ast); void Z3_dec_ref(Z3_context, Z3_ast);
Z3_symbol Z3_mk_string_symbol(Z3_context, const char*);
Z3_sort Z3_mk_int_sort(Z3_context); Z3_sort Z3_mk_bool_sort(Z3_context);
Z3_ast Z3_mk_const(Z3_context, Z3_symbol, Z3_sort);
Z3_func_decl Z3_mk_func_decl(Z3_context, Z3_symbol, unsigned, Z3_sort*, Z3_sort);
Z3_ast Z3_mk_app(Z3_context, Z3_func_decl, unsigned, Z3_ast*);
Z3_ast Z3_mk_int64(Z3_context, int64_t, Z3_sort);
Z3_ast Z3_mk_numeral(Z3_context, const char*, Z3_sort);
Z3_ast Z3_mk_true(Z3_context); Z3_ast Z3_mk_false(Z3_context);
Z3_ast Z3_mk_eq(Z3_context, Z3_ast, Z3_ast); Z3_ast Z3_mk_not(Z3_context, Z3_ast);
Z3_ast Z3_mk_ite(Z3_context, Z3_ast, Z3_ast, Z3_ast);
Z3_ast Z3_mk_and(Z3_context, unsigned, Z3_ast*); Z3_ast Z3_mk_or(Z3_context, unsigned, Z3_ast*);
Z3_ast Z3_mk_add(Z3_context, unsigned, Z3_ast*); Z3_ast Z3_mk_mul(Z3_context, unsigned, Z3_ast*);
Z3_ast Z3_mk_div(Z3_context, Z3_ast, Z3_ast); Z3_ast Z3_mk_le(Z3_context, Z3_ast, Z3_ast);
Z3_ast Z3_mk_ge(Z3_context, Z3_ast, Z3_ast);
Z3_solver Z3_mk_solver(Z3_context); Z3_solver Z3_mk_simple_solver(Z3_context);
void Z3_solver_inc_ref(Z3_context, Z3_solver); void Z3_solver_dec_ref(Z3_context, Z3_solver);
void Z3_solver_push(Z3_context, Z3_solver); void Z3_solver_pop(Z3_context, Z3_solver, unsigned);
void Z3_solver_assert(Z3_context, Z3_solver, Z3_ast);
int Z3_solver_check(Z3_context, Z3_solver);
int Z3_solver_check_assumptions(Z3_context, Z3_solver, unsigned, Z3_ast*);
const char* Z3_solver_get_reason_unknown(Z3_context, Z3_solver);
const char* Z3_solver_to_string(Z3_context, Z3_solver);
Z3_model Z3_solver_get_model(Z3_context, Z3_solver);
void Z3_model_inc_ref(Z3_context, Z3_model); void Z3_model_dec_ref(Z3_context, Z3_model);
bool Z3_model_eval(Z3_context, Z3_model, Z3_ast, bool, Z3_ast*);
bool Z3_get_numeral_int64(Z3_context, Z3_ast, int64_t*);
const char* Z3_get_numeral_string(Z3_context, Z3_ast);
int Z3_get_bool_value(Z3_context, Z3_ast);
Z3_func_interp Z3_model_get_func_interp(Z3_context, Z3_model, Z3_func_decl);
void Z3_func_interp_inc_ref(Z3_context, Z3_func_interp); void Z3_func_interp_dec_ref(Z3_context, Z3_func_interp);
unsigned Z3_func_interp_get_num_entries(Z3_context, Z3_func_interp);
Z3_func_entry Z3_func_interp_get_entry(Z3_context, Z3_func_interp, unsigned);
void Z3_func_entry_inc_ref(Z3_context, Z3_func_entry); void Z3_func_entry_dec_ref(Z3_context, Z3_func_entry);
Z3_ast Z3_func_entry_get_value(Z3_context, Z3_func_entry); Z3_ast Z3_func_entry_get_arg(Z3_context, Z3_func_entry, unsigned);
Z3_ast Z3_func_interp_get_else(Z3_context, Z3_func_interp);
Z3_params Z3_mk_params(Z3_context); void Z3_params_inc_ref(Z3_context, Z3_params);
void Z3_params_set_uint(Z3_context, Z3_params, Z3_symbol, unsigned);
void Z3_solver_set_params(Z3_context, Z3_solver, Z3_params);
void Z3_get_version(unsigned*, unsigned*, unsigned*, unsigned*);
""")
L = ffi.dlopen(LIB)
NULL = ffi.NULL


def version():
    a = ffi.new("unsigned[4]")
    L.Z3_get_version(a, a + 1, a + 2, a + 3)
    return "%d.%d.%d" % (a[0], a[1], a[2])


class Ctx:
    """one z3 context; terms live until the context is dropped"""

    def __init__(self, timeout_ms):
        cfg = L.Z3_mk_config()
        self.c = c = L.Z3_mk_context_rc(cfg)
        L.Z3_del_config(cfg)
        L.Z3_set_error_handler(c, NULL)
        self.int_sort = L.Z3_mk_int_sort(c)
        self.bool_sort = L.Z3_mk_bool_sort(c)
        self.n = 0
        self.ints = {}
        self.funs = {}
        self.timeout_ms = timeout_ms
        self.s = None
        self.solver()

    def sym(self, name):
        return L.Z3_mk_string_symbol(self.c, name.encode())

    def keep(self, a):
        L.Z3_inc_ref(self.c, a)
        self.n += 1
        return a

    def solver(self):
        c = self.c
        if self.s is not None:
            L.Z3_solver_dec_ref(c, self.s)
        self.s = s = L.Z3_mk_simple_solver(c)
        L.Z3_solver_inc_ref(c, s)
        p = L.Z3_mk_params(c)
        L.Z3_params_inc_ref(c, p)
        L.Z3_params_set_uint(c, p, self.sym("timeout"), self.timeout_ms)
        L.Z3_params_set_uint(c, p, self.sym("random_seed"), 1)
        L.Z3_solver_set_params(c, s, p)
        self.err()

    def err(self):
        e = L.Z3_get_error_code(self.c)
        if e:
            raise RuntimeError("z3: " + ffi.string(L.Z3_get_error_msg(self.c, e)).decode())

    def close(self):
        L.Z3_solver_dec_ref(self.c, self.s)
        L.Z3_del_context(self.c)

    # terms
    def int(self, v):
        r = self.ints.get(v)
        if r is None:
            if -(1 << 62) < v < (1 << 62):
                r = L.Z3_mk_int64(self.c, v, self.int_sort)
            else:
                r = L.Z3_mk_numeral(self.c, str(v).encode(), self.int_sort)
            self.ints[v] = self.keep(r)
        return r

    def int_const(self, name):
        return self.keep(L.Z3_mk_const(self.c, self.sym(name), self.int_sort))

    def bool_const(self, name):
        return self.keep(L.Z3_mk_const(self.c, self.sym(name), self.bool_sort))

    def fun(self, name):
        f = self.funs.get(name)
        if f is None:
            f = L.Z3_mk_func_decl(self.c, self.sym("@" + name), 1, ffi.new("Z3_sort[1]", [self.int_sort]), self.bool_sort)
            L.Z3_inc_ref(self.c, ffi.cast("Z3_ast", f))
            self.funs[name] = f
        return f

    def app(self, name, a):
        return self.keep(L.Z3_mk_app(self.c, self.fun(name), 1, ffi.new("Z3_ast[1]", [a])))

    def nary(self, f, xs):
        return self.keep(f(self.c, len(xs), ffi.new("Z3_ast[]", xs)))

    def and_(self, xs): return self.nary(L.Z3_mk_and, xs)
    def or_(self, xs): return self.nary(L.Z3_mk_or, xs)
    def add(self, xs): return self.nary(L.Z3_mk_add, xs)
    def mul(self, a, b): return self.nary(L.Z3_mk_mul, [a, b])
    def not_(self, a): return self.keep(L.Z3_mk_not(self.c, a))
    def ite(self, a, b, d): return self.keep(L.Z3_mk_ite(self.c, a, b, d))
    def div(self, a, b): return self.keep(L.Z3_mk_div(self.c, a, b))
    def le(self, a, b): return self.keep(L.Z3_mk_le(self.c, a, b))
    def eq(self, a, b): return self.keep(L.Z3_mk_eq(self.c, a, b))

    # solving
    def push(self): L.Z3_solver_push(self.c, self.s)
    def pop(self, n=1): L.Z3_solver_pop(self.c, self.s, n)
    def add_assert(self, a): L.Z3_solver_assert(self.c, self.s, a)
    def check(self): return L.Z3_solver_check(self.c, self.s)

    def reason(self):
        return ffi.string(L.Z3_solver_get_reason_unknown(self.c, self.s)).decode()

    def model(self):
        m = L.Z3_solver_get_model(self.c, self.s)
        L.Z3_model_inc_ref(self.c, m)
        return m

    def model_done(self, m):
        L.Z3_model_dec_ref(self.c, m)

    def num(self, a):
        o = ffi.new("int64_t*")
        if L.Z3_get_numeral_int64(self.c, a, o):
            return int(o[0])
        return int(ffi.string(L.Z3_get_numeral_string(self.c, a)).decode())

    def eval(self, m, a, is_int):
        o = ffi.new("Z3_ast*")
        if not L.Z3_model_eval(self.c, m, a, True, o):
            raise RuntimeError("z3 model_eval")
        L.Z3_inc_ref(self.c, o[0])
        try:
            if is_int:
                return self.num(o[0])
            return L.Z3_get_bool_value(self.c, o[0]) == 1
        finally:
            L.Z3_dec_ref(self.c, o[0])

    def fun_interp(self, m, name):
        """-> (dict, default) or None"""
        c = self.c
        fi = L.Z3_model_get_func_interp(c, m, self.fun(name))
        if fi == NULL:
            return {}, False
        L.Z3_func_interp_inc_ref(c, fi)
        d = {}
        for i in range(L.Z3_func_interp_get_num_entries(c, fi)):
            e = L.Z3_func_interp_get_entry(c, fi, i)
            L.Z3_func_entry_inc_ref(c, e)
            d[self.num(L.Z3_func_entry_get_arg(c, e, 0))] = L.Z3_get_bool_value(c, L.Z3_func_entry_get_value(c, e)) == 1
            L.Z3_func_entry_dec_ref(c, e)
        b = L.Z3_get_bool_value(c, L.Z3_func_interp_get_else(c, fi))
        L.Z3_func_interp_dec_ref(c, fi)
        if b == 0:
            return None
        return d, b == 1

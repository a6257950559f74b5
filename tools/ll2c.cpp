// ll2c: translate LLVM IR (produced by clang from the real c4core sources plus
// a harness) into C that CBMC can execute symbolically. No semantics is
// invented here: every instruction becomes the equivalent C on fixed-width
// unsigned integers; memory stays byte addressed.
//
//   ll2c in.bc entry out.c
//
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
using namespace llvm;
using std::string;

static Module *M;
static const DataLayout *DL;
static std::map<Type*, string> typeNames;
static std::ostringstream typeDefs;
static std::set<unsigned> oddWidths;
static unsigned nType = 0;
static std::map<const Value*, string> gNames;
static std::map<string, int> gUsed;

[[noreturn]] static void die(string const& m, const Value *v=nullptr)
{
    std::cerr << "ll2c: unsupported: " << m << "\n";
    if(v) { v->print(errs()); errs() << "\n"; }
    exit(3);
}

static string itype(unsigned w)
{
    switch(w)
    {
    case 1: return "u1";
    case 8: return "u8"; case 16: return "u16"; case 32: return "u32"; case 64: return "u64"; case 128: return "u128";
    default: oddWidths.insert(w); return "u" + std::to_string(w);
    }
}
static string stype(unsigned w) { string s = itype(w); s[0] = 's'; return s; }

static string ctype(Type *t)
{
    if(t->isVoidTy()) return "void";
    if(t->isIntegerTy()) return itype(t->getIntegerBitWidth());
    if(t->isPointerTy()) return "u8*";
    if(t->isFloatTy()) return "float";
    if(t->isDoubleTy()) return "double";
    if(t->isX86_FP80Ty()) return "long double";
    auto it = typeNames.find(t);
    if(it != typeNames.end()) return it->second;
    if(auto *at = dyn_cast<ArrayType>(t))
    {
        string el = ctype(at->getElementType());
        string nm = "struct A" + std::to_string(nType++);
        uint64_t n = at->getNumElements(); if(n == 0) n = 1;
        typeDefs << nm << " { " << el << " a[" << n << "]; };\n";
        return typeNames[t] = nm;
    }
    if(auto *vt = dyn_cast<FixedVectorType>(t))
    {
        string el = ctype(vt->getElementType());
        string nm = "struct V" + std::to_string(nType++);
        typeDefs << nm << " { " << el << " a[" << vt->getNumElements() << "]; };\n";
        return typeNames[t] = nm;
    }
    if(auto *st = dyn_cast<StructType>(t))
    {
        if(st->isOpaque()) return typeNames[t] = "u8";
        std::ostringstream os;
        string nm = "struct S" + std::to_string(nType++);
        os << nm << " { ";
        unsigned i = 0;
        for(Type *e : st->elements())
            os << ctype(e) << " f" << i++ << "; ";
        if(i == 0) os << "u8 dummy; ";
        os << "}" << (st->isPacked() ? " __attribute__((packed))" : "") << ";\n";
        typeDefs << os.str();
        return typeNames[t] = nm;
    }
    string s; raw_string_ostream rs(s); t->print(rs);
    die("type " + rs.str());
}

static string sanitize(StringRef n)
{
    string r;
    for(char c : n) r += (isalnum((unsigned char)c) || c == '_') ? c : '_';
    return r;
}

static string gname(const GlobalValue *g)
{
    auto it = gNames.find(g);
    if(it != gNames.end()) return it->second;
    string n = sanitize(g->getName());
    if(auto *F = dyn_cast<Function>(g))
        n = (F->isDeclaration() ? "ext_" : "fn_") + n;
    else
        n = "g_" + n;
    int k = gUsed[n]++;
    if(k) n += "__" + std::to_string(k);
    return gNames[g] = n;
}

//--------------------------------------------------------------------------
static string cexpr(const Constant *c, bool init=false);

static string intlit(const APInt &v)
{
    unsigned w = v.getBitWidth();
    string t = itype(w);
    if(w <= 64) return "((" + t + ")" + std::to_string(v.getZExtValue()) + (w > 32 ? "ULL)" : "U)");
    if(w <= 128)
    {
        uint64_t lo = v.extractBitsAsZExtValue(64, 0);
        uint64_t hi = v.extractBitsAsZExtValue(w-64, 64);
        return "((((" + t + ")" + std::to_string(hi) + "ULL)<<64)|((" + t + ")" + std::to_string(lo) + "ULL))";
    }
    // wider: build by 64-bit pieces
    string r = "(("+t+")0";
    for(unsigned i = 0; i < w; i += 64)
    {
        unsigned n = std::min(64u, w - i);
        r += "|(((" + t + ")" + std::to_string(v.extractBitsAsZExtValue(n, i)) + "ULL)<<" + std::to_string(i) + ")";
    }
    return r + ")";
}
static string fplit(const ConstantFP *f)
{
    const APFloat &v = f->getValueAPF();
    bool d = f->getType()->isDoubleTy();
    if(!d && !f->getType()->isFloatTy()) die("fp constant", f);
    if(v.isNaN()) return d ? "VF_NAN" : "VF_NANF";
    if(v.isInfinity()) return string(v.isNegative() ? "(-" : "(") + (d ? "VF_INF)" : "VF_INFF)");
    char buf[64];
    snprintf(buf, sizeof buf, "%a", d ? v.convertToDouble() : (double)v.convertToFloat());
    return string("(") + buf + (d ? ")" : "f)");
}

static string gepOffset(const GEPOperator *gep, std::function<string(const Value*)> val)
{
    // returns an expression for the byte offset
    int64_t cst = 0; string dyn;
    for(auto gi = gep_type_begin(gep), e = gep_type_end(gep); gi != e; ++gi)
    {
        const Value *op = gi.getOperand();
        if(StructType *st = gi.getStructTypeOrNull())
        {
            cst += (int64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
        }
        else
        {
            int64_t sz = (int64_t)DL->getTypeAllocSize(gi.getIndexedType());
            if(auto *ci = dyn_cast<ConstantInt>(op)) cst += ci->getSExtValue() * sz;
            else
            {
                unsigned w = op->getType()->getIntegerBitWidth();
                string s = val(op);
                if(w < 64) s = "((u64)(s64)(" + stype(w) + ")" + s + ")";
                if(!dyn.empty()) dyn += "+";
                dyn += sz == 1 ? s : s + "*" + std::to_string(sz) + "ULL";
            }
        }
    }
    if(dyn.empty()) return cst ? (cst < 0 ? "-" + std::to_string(-cst) + "LL" : std::to_string(cst) + "LL") : "";
    if(cst) dyn += "+(u64)" + std::to_string(cst) + "LL";
    return "(s64)(" + dyn + ")";
}

static string cexpr(const Constant *c, bool init)
{
    Type *t = c->getType();
    if(auto *ci = dyn_cast<ConstantInt>(c)) return intlit(ci->getValue());
    if(auto *cf = dyn_cast<ConstantFP>(c)) return fplit(cf);
    if(isa<ConstantPointerNull>(c)) return "((u8*)0)";
    if(auto *gv = dyn_cast<GlobalValue>(c))
    {
        if(auto *ga = dyn_cast<GlobalAlias>(gv)) return cexpr(ga->getAliasee(), init);
        return "((u8*)&" + gname(gv) + ")";
    }
    if(auto *ce = dyn_cast<ConstantExpr>(c))
    {
        switch(ce->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            string off = gepOffset(cast<GEPOperator>(ce), [](const Value *v){ return cexpr(cast<Constant>(v)); });
            string b = cexpr(ce->getOperand(0));
            return off.empty() ? b : "(" + b + "+" + off + ")";
        }
        case Instruction::BitCast: return cexpr(ce->getOperand(0), init);
        case Instruction::PtrToInt: return "((" + ctype(t) + ")" + cexpr(ce->getOperand(0)) + ")";
        case Instruction::IntToPtr: return "((u8*)" + cexpr(ce->getOperand(0)) + ")";
        case Instruction::Sub: return "((" + ctype(t) + ")(" + cexpr(ce->getOperand(0)) + "-" + cexpr(ce->getOperand(1)) + "))";
        case Instruction::Add: return "((" + ctype(t) + ")(" + cexpr(ce->getOperand(0)) + "+" + cexpr(ce->getOperand(1)) + "))";
        case Instruction::Trunc: return "((" + ctype(t) + ")" + cexpr(ce->getOperand(0)) + ")";
        default: die("constant expression", ce);
        }
    }
    if(isa<UndefValue>(c)) // includes poison
    {
        if(t->isAggregateType() || t->isVectorTy()) { if(init) return "{0}"; return "((" + ctype(t) + "){0})"; }
        if(t->isPointerTy()) return "((u8*)0)";
        return "((" + ctype(t) + ")0)";
    }
    string pre = init ? "" : "(" + ctype(t) + ")";
    if(isa<ConstantAggregateZero>(c)) { return init ? string("{0}") : "(" + pre + "{0})"; }
    if(auto *cd = dyn_cast<ConstantDataSequential>(c))
    {
        string r = "{{";
        for(unsigned i = 0; i < cd->getNumElements(); ++i)
            r += (i ? "," : "") + cexpr(cd->getElementAsConstant(i), true);
        r += "}}";
        return init ? r : "(" + pre + r + ")";
    }
    if(isa<ConstantArray>(c) || isa<ConstantVector>(c))
    {
        string r = "{{";
        for(unsigned i = 0; i < c->getNumOperands(); ++i)
            r += (i ? "," : "") + cexpr(cast<Constant>(c->getOperand(i)), true);
        r += "}}";
        return init ? r : "(" + pre + r + ")";
    }
    if(isa<ConstantStruct>(c))
    {
        string r = "{";
        for(unsigned i = 0; i < c->getNumOperands(); ++i)
            r += (i ? "," : "") + cexpr(cast<Constant>(c->getOperand(i)), true);
        if(c->getNumOperands() == 0) r += "0";
        r += "}";
        return init ? r : "(" + pre + r + ")";
    }
    die("constant", c);
}

//--------------------------------------------------------------------------
static std::set<string> usedExt;
static std::map<string, string> extDecls;

struct FnEmitter
{
    const Function &F;
    std::ostringstream decls, body;
    std::map<const Value*, string> names;
    std::map<const BasicBlock*, string> bbn;
    unsigned n = 0, nundef = 0, ntmp = 0;
    FnEmitter(const Function &f) : F(f) {}

    string undef(Type *t)
    {
        string u = "und" + std::to_string(nundef++);
        decls << "  " << ctype(t) << " " << u << ";\n";
        return u;
    }
    string val(const Value *v)
    {
        if(isa<UndefValue>(v) && !v->getType()->isAggregateType() && !v->getType()->isVectorTy()) return undef(v->getType());
        if(isa<UndefValue>(v)) return undef(v->getType());
        if(auto *c = dyn_cast<Constant>(v)) return cexpr(c);
        auto it = names.find(v);
        if(it != names.end()) return it->second;
        string nm = (isa<Argument>(v) ? "a" : "v") + std::to_string(n++);
        names[v] = nm;
        if(!isa<Argument>(v)) decls << "  " << ctype(v->getType()) << " " << nm << ";\n";
        return nm;
    }
    string sval(const Value *v) { return "((" + stype(v->getType()->getIntegerBitWidth()) + ")" + val(v) + ")"; }
    string wide(const Value *v)
    {   // avoid promotion to signed int
        unsigned w = v->getType()->getIntegerBitWidth();
        return w < 32 ? "((u32)" + val(v) + ")" : val(v);
    }
    static unsigned W(const Value *v) { return v->getType()->getIntegerBitWidth(); }

    void edge(const BasicBlock *from, const BasicBlock *to, string ind)
    {
        std::vector<std::pair<const PHINode*, const Value*>> ph;
        for(const PHINode &p : to->phis())
        {
            const Value *in = p.getIncomingValueForBlock(from);
            if(isa<UndefValue>(in)) { ph.push_back({&p, in}); continue; }
            if(in == &p) continue;
            ph.push_back({&p, in});
        }
        bool conflict = false;
        for(auto &a : ph) for(auto &b : ph) if(&a != &b && a.second == b.first) conflict = true;
        if(!conflict)
        {
            for(auto &a : ph) body << ind << val(a.first) << " = " << val(a.second) << ";\n";
        }
        else
        {
            std::vector<string> tmps;
            for(auto &a : ph)
            {
                string t = "t" + std::to_string(ntmp++);
                decls << "  " << ctype(a.first->getType()) << " " << t << ";\n";
                tmps.push_back(t);
                body << ind << t << " = " << val(a.second) << ";\n";
            }
            for(size_t i = 0; i < ph.size(); ++i) body << ind << val(ph[i].first) << " = " << tmps[i] << ";\n";
        }
        body << ind << "goto " << bbn[to] << ";\n";
    }

    static const Type* baseType(const Value *p)
    {
        if(auto *ai = dyn_cast<AllocaInst>(p)) return ai->getAllocatedType();
        if(auto *gv = dyn_cast<GlobalVariable>(p)) return gv->getValueType();
        if(auto *ge = dyn_cast<GEPOperator>(p)) return ge->getResultElementType();
        if(auto *ar = dyn_cast<Argument>(p))
        {
            if(ar->hasByValAttr()) return ar->getParamByValType();
            if(ar->hasStructRetAttr()) return ar->getParamStructRetType();
        }
        return nullptr;
    }
    static void flatten(const Type *t, uint64_t off, std::vector<std::pair<uint64_t,Type*>> &out)
    {
        if(auto *st = dyn_cast<StructType>(t))
        {
            auto *sl = DL->getStructLayout(const_cast<StructType*>(st));
            for(unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
        }
        else if(auto *at = dyn_cast<ArrayType>(t))
        {
            uint64_t sz = DL->getTypeAllocSize(at->getElementType());
            if(at->getNumElements() > 64) { out.push_back({off, nullptr}); return; }
            for(uint64_t i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), off + i*sz, out);
        }
        else out.push_back({off, const_cast<Type*>(t)});
    }
    bool typedCopy(const Value *d, const Value *s, uint64_t sz)
    {
        if(sz > 256) return false;
        for(const Value *p : {d, s})
        {
            const Type *t = baseType(p);
            if(!t || !t->isSized()) continue;
            uint64_t ts = DL->getTypeAllocSize(const_cast<Type*>(t));
            if(ts < sz) continue;
            std::vector<std::pair<uint64_t,Type*>> fl;
            flatten(t, 0, fl);
            if(fl.size() > 48) continue;
            bool ok = true, hasptr = false; uint64_t end = 0;
            std::vector<std::pair<uint64_t,Type*>> use;
            for(auto &f : fl)
            {
                if(!f.second) { ok = false; break; }
                if(f.first >= sz) break;
                uint64_t e = f.first + DL->getTypeStoreSize(f.second);
                if(e > sz) { ok = false; break; }
                end = e;
                hasptr |= f.second->isPointerTy();
                use.push_back(f);
            }
            if(!ok || !hasptr) continue;
            (void)end;
            string D = val(d), S = val(s);
            // read everything first (memmove semantics), then write
            std::vector<string> tm;
            for(auto &f : use)
            {
                string t2 = "t" + std::to_string(ntmp++);
                decls << "  " << ctype(f.second) << " " << t2 << ";\n";
                body << "  " << t2 << " = *(" << ctype(f.second) << "*)(" << S << "+" << f.first << ");\n";
                tm.push_back(t2);
            }
            size_t i = 0;
            for(auto &f : use) body << "  *(" << ctype(f.second) << "*)(" << D << "+" << f.first << ") = " << tm[i++] << ";\n";
            return true;
        }
        return false;
    }

    string cstringArg(const Value *v)
    {
        v = v->stripPointerCasts();
        if(auto *g = dyn_cast<GlobalVariable>(v))
            if(g->hasInitializer())
                if(auto *cd = dyn_cast<ConstantDataArray>(g->getInitializer()))
                    if(cd->isCString())
                    {
                        string r;
                        for(char c : cd->getAsCString()) { if(c == '"' || c == '\\' || c == '\n') r += ' '; else r += c; }
                        return r;
                    }
        return "?";
    }

    void call(const CallInst &I)
    {
        const Function *cal = I.getCalledFunction();
        string res = I.getType()->isVoidTy() || I.use_empty() ? "" : val(&I) + " = ";
        if(!cal)
        {
            if(I.isInlineAsm())
            {
                auto *ia = cast<InlineAsm>(I.getCalledOperand());
                if(ia->getAsmString().empty()) return;
                body << "  __CPROVER_assert(0, \"UNMODELLED inline asm\"); __CPROVER_assume(0);\n";
                return;
            }
            const Value *cv = I.getCalledOperand()->stripPointerCasts();
            if(auto *al = dyn_cast<GlobalAlias>(cv)) cal = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
            else cal = dyn_cast<Function>(cv);
        }
        if(cal && cal->isIntrinsic()) { intrinsic(I, cal, res); return; }
        if(cal)
        {
            StringRef nm = cal->getName();
            if(nm == "vf_assert")
            {
                body << "  __CPROVER_assert(" << val(I.getArgOperand(0)) << ", \"VF: " << cstringArg(I.getArgOperand(1)) << "\");\n";
                body << "  __CPROVER_assume(" << val(I.getArgOperand(0)) << ");\n";
                return;
            }
            if(nm == "vf_cover")
            {
                body << "  __CPROVER_assert(!" << val(I.getArgOperand(0)) << ", \"COVER: " << cstringArg(I.getArgOperand(1)) << "\");\n";
                return;
            }
            if(nm == "vf_fail")
            {
                body << "  __CPROVER_assert(0, \"VF: " << cstringArg(I.getArgOperand(0)) << "\");\n  __CPROVER_assume(0);\n";
                return;
            }
            if(nm == "vf_assume")
            {
                body << "  __CPROVER_assume(" << val(I.getArgOperand(0)) << ");\n";
                return;
            }
            if(nm == "vf_param")
            {
                auto *ci = dyn_cast<ConstantInt>(I.getArgOperand(0));
                if(!ci) die("vf_param argument", &I);
                body << "  " << res << "(u64)VF_P" << ci->getZExtValue() << ";\n";
                return;
            }
            if(cal->isDeclaration() && cal->getName().starts_with("_ZN2c412handle_error"))
            {
                body << "  VF_C4ERROR(\"c4::handle_error: " << (I.arg_size() > 1 ? cstringArg(I.getArgOperand(1)) : "") << "\");\n";
                return;
            }
        }
        std::ostringstream a;
        unsigned k = 0;
        const FunctionType *ft = I.getFunctionType();
        for(const Use &u : I.args())
        {
            if(k >= ft->getNumParams() && !(cal && !cal->isDeclaration())) break; // varargs dropped for externals
            if(k >= ft->getNumParams()) break;
            a << (k ? ", " : "") << val(u.get());
            ++k;
        }
        if(cal && cal->getFunctionType() == ft)
        {
            if(cal->isDeclaration()) noteExt(cal);
            body << "  " << res << gname(cal) << "(" << a.str() << ");\n";
        }
        else
        {
            string sig = ctype(ft->getReturnType()) + "(*)(";
            for(unsigned i = 0; i < ft->getNumParams(); ++i) sig += (i ? "," : "") + ctype(ft->getParamType(i));
            if(ft->getNumParams() == 0) sig += "void";
            sig += ")";
            body << "  " << res << "((" << sig << ")" << val(I.getCalledOperand()) << ")(" << a.str() << ");\n";
        }
        if(I.doesNotReturn()) body << "  __CPROVER_assume(0);\n";
    }

    static void noteExt(const Function *f)
    {
        string nm = f->getName().str();
        if(extDecls.count(nm)) return;
        string d = ctype(f->getReturnType()) + " " + gname(f) + "(";
        for(unsigned i = 0; i < f->arg_size(); ++i) d += (i ? ", " : "") + ctype(f->getArg(i)->getType()) + " p" + std::to_string(i);
        if(f->arg_size() == 0) d += "void";
        d += ")";
        extDecls[nm] = d;
    }

    void intrinsic(const CallInst &I, const Function *cal, string res)
    {
        auto A = [&](unsigned i){ return val(I.getArgOperand(i)); };
        auto Id = cal->getIntrinsicID();
        switch(Id)
        {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
        case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end:
        case Intrinsic::stackrestore: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::donothing: case Intrinsic::prefetch: return;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: if(!res.empty()) body << "  " << res << "0;\n"; return;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation:
            if(!res.empty()) body << "  " << res << A(0) << ";\n"; return;
        case Intrinsic::is_constant: if(!res.empty()) body << "  " << res << "0;\n"; return;
        case Intrinsic::objectsize: if(!res.empty()) body << "  " << res << "(" << ctype(I.getType()) << ")-1;\n"; return;
        case Intrinsic::trap: case Intrinsic::debugtrap:
            body << "  __CPROVER_assert(0, \"TRAP\"); __CPROVER_assume(0);\n"; return;
        case Intrinsic::ubsantrap:
            body << "  __CPROVER_assert(0, \"UBSAN kind " << cast<ConstantInt>(I.getArgOperand(0))->getZExtValue() << "\"); __CPROVER_assume(0);\n"; return;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        {
            if(auto *ci = dyn_cast<ConstantInt>(I.getArgOperand(2)))
            {
                uint64_t sz = ci->getZExtValue();
                if(sz == 0) return;
                if(typedCopy(I.getArgOperand(0), I.getArgOperand(1), sz)) return;
            }
            body << "  " << (Id == Intrinsic::memmove ? "vf_memmove" : "vf_memcpy") << "(" << A(0) << ", " << A(1) << ", " << A(2) << ");\n";
            return;
        }
        case Intrinsic::memset:
        {
            if(auto *ci = dyn_cast<ConstantInt>(I.getArgOperand(2)))
                if(auto *cv = dyn_cast<ConstantInt>(I.getArgOperand(1)))
                    if(cv->isZero())
                    {
                        uint64_t sz = ci->getZExtValue();
                        const Type *t = baseType(I.getArgOperand(0));
                        if(t && t->isSized() && sz <= 256 && DL->getTypeAllocSize(const_cast<Type*>(t)) >= sz)
                        {
                            std::vector<std::pair<uint64_t,Type*>> fl; flatten(t, 0, fl);
                            bool ok = fl.size() <= 64; bool ptr = false;
                            for(auto &f : fl) { if(!f.second || (f.first < sz && f.first + DL->getTypeStoreSize(f.second) > sz)) ok = false; else if(f.second->isPointerTy()) ptr = true; }
                            if(ok && ptr)
                            {
                                for(auto &f : fl) if(f.first < sz) body << "  *(" << ctype(f.second) << "*)(" << A(0) << "+" << f.first << ") = 0;\n";
                                return;
                            }
                        }
                    }
            body << "  vf_memset(" << A(0) << ", " << A(1) << ", " << A(2) << ");\n";
            return;
        }
        default: break;
        }
        if(res.empty()) return;
        Type *T = I.getType();
        switch(Id)
        {
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap:
        {
            const char *nm = Id == Intrinsic::ctlz ? "ctlz" : Id == Intrinsic::cttz ? "cttz" : Id == Intrinsic::ctpop ? "ctpop" : "bswap";
            body << "  " << res << "vf_" << nm << T->getIntegerBitWidth() << "(" << A(0) << ");\n"; return;
        }
        case Intrinsic::umax: body << "  " << res << A(0) << " > " << A(1) << " ? " << A(0) << " : " << A(1) << ";\n"; return;
        case Intrinsic::umin: body << "  " << res << A(0) << " < " << A(1) << " ? " << A(0) << " : " << A(1) << ";\n"; return;
        case Intrinsic::smax: body << "  " << res << sval(I.getArgOperand(0)) << " > " << sval(I.getArgOperand(1)) << " ? " << A(0) << " : " << A(1) << ";\n"; return;
        case Intrinsic::smin: body << "  " << res << sval(I.getArgOperand(0)) << " < " << sval(I.getArgOperand(1)) << " ? " << A(0) << " : " << A(1) << ";\n"; return;
        case Intrinsic::abs: body << "  " << res << "(" << ctype(T) << ")(" << sval(I.getArgOperand(0)) << " < 0 ? (" << ctype(T) << ")(0-" << wide(I.getArgOperand(0)) << ") : " << A(0) << ");\n"; return;
        case Intrinsic::usub_sat: body << "  " << res << A(0) << " > " << A(1) << " ? (" << ctype(T) << ")(" << A(0) << "-" << A(1) << ") : 0;\n"; return;
        case Intrinsic::uadd_sat: body << "  " << res << "(" << ctype(T) << ")(" << A(0) << "+" << A(1) << ") < " << A(0) << " ? (" << ctype(T) << ")-1 : (" << ctype(T) << ")(" << A(0) << "+" << A(1) << ");\n"; return;
        case Intrinsic::fshl: case Intrinsic::fshr:
        {
            unsigned w = T->getIntegerBitWidth();
            body << "  " << res << "vf_fsh" << (Id == Intrinsic::fshl ? "l" : "r") << w << "(" << A(0) << "," << A(1) << "," << A(2) << ");\n"; return;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        {
            const Value *x = I.getArgOperand(0), *y = I.getArgOperand(1);
            unsigned w = W(x);
            bool sg = Id == Intrinsic::sadd_with_overflow || Id == Intrinsic::ssub_with_overflow || Id == Intrinsic::smul_with_overflow;
            const char *op = (Id == Intrinsic::uadd_with_overflow || Id == Intrinsic::sadd_with_overflow) ? "+" :
                (Id == Intrinsic::usub_with_overflow || Id == Intrinsic::ssub_with_overflow) ? "-" : "*";
            string nm = val(&I);
            bool mul = op[0] == '*';
            unsigned w2 = mul ? 2*w : w + 1;
            if(!mul) // avoid odd widths: use sign/carry formulas
            {
                body << "  " << nm << ".f0 = (" << itype(w) << ")(" << wide(x) << op << wide(y) << ");\n";
                if(!sg)
                    body << "  " << nm << ".f1 = " << (op[0] == '+' ? nm + ".f0 < " + val(x) : val(x) + " < " + val(y)) << ";\n";
                else if(op[0] == '+')
                    body << "  " << nm << ".f1 = (u1)((((" << wide(x) << "^" << nm << ".f0)&(" << wide(y) << "^" << nm << ".f0))>>" << (w-1) << ")&1);\n";
                else
                    body << "  " << nm << ".f1 = (u1)((((" << wide(x) << "^" << wide(y) << ")&(" << wide(x) << "^" << nm << ".f0))>>" << (w-1) << ")&1);\n";
            }
            else if(isa<ConstantInt>(y) && cast<ConstantInt>(y)->getValue().isStrictlyPositive())
            { // multiplication by a positive constant: range check instead of a double-width product
                APInt c = cast<ConstantInt>(y)->getValue();
                body << "  " << nm << ".f0 = (" << itype(w) << ")(" << wide(x) << "*" << wide(y) << ");\n";
                if(!sg) body << "  " << nm << ".f1 = (u1)(" << val(x) << " > " << intlit(APInt::getMaxValue(w).udiv(c)) << ");\n";
                else body << "  " << nm << ".f1 = (u1)(" << sval(x) << " > ((" << stype(w) << ")" << intlit(APInt::getSignedMaxValue(w).sdiv(c)) << ") || " << sval(x) << " < ((" << stype(w) << ")" << intlit(APInt::getSignedMinValue(w).sdiv(c)) << "));\n";
            }
            else
            {
                string ty = sg ? stype(w2) : itype(w2);
                string sx = sg ? "((" + ty + ")" + sval(x) + ")" : "((" + ty + ")" + val(x) + ")";
                string sy = sg ? "((" + ty + ")" + sval(y) + ")" : "((" + ty + ")" + val(y) + ")";
                string tm = "t" + std::to_string(ntmp++);
                decls << "  " << ty << " " << tm << ";\n";
                body << "  " << tm << " = " << sx << op << sy << ";\n";
                body << "  " << nm << ".f0 = (" << itype(w) << ")" << tm << ";\n";
                body << "  " << nm << ".f1 = (u1)(" << tm << " != (" << ty << ")(" << (sg ? stype(w) : itype(w)) << ")" << tm << ");\n";
            }
            return;
        }
        case Intrinsic::fabs: body << "  " << res << (T->isDoubleTy() ? "VF_FABS(" : "VF_FABSF(") << A(0) << ");\n"; return;
        case Intrinsic::fmuladd: body << "  " << res << A(0) << "*" << A(1) << "+" << A(2) << ";\n"; return;
        case Intrinsic::copysign: body << "  " << res << (T->isDoubleTy() ? "vf_copysign(" : "vf_copysignf(") << A(0) << "," << A(1) << ");\n"; return;
        case Intrinsic::is_fpclass:
        {
            unsigned m = (unsigned)cast<ConstantInt>(I.getArgOperand(1))->getZExtValue();
            body << "  " << res << "vf_fpclass" << (I.getArgOperand(0)->getType()->isDoubleTy() ? "d" : "f") << "(" << A(0) << "," << m << ");\n"; return;
        }
        default: break;
        }
        die("intrinsic " + cal->getName().str(), &I);
    }

    void inst(const Instruction &I)
    {
        if(isa<PHINode>(I)) { val(&I); return; }
        if(auto *ai = dyn_cast<AllocaInst>(&I))
        {
            string o = "o" + std::to_string(n++);
            if(!ai->isStaticAlloca())
            {
                body << "  " << val(&I) << " = vf_dynalloca(" << val(ai->getArraySize()) << "*" << DL->getTypeAllocSize(ai->getAllocatedType()) << ");\n";
                return;
            }
            uint64_t cnt = cast<ConstantInt>(ai->getArraySize())->getZExtValue();
            decls << "  " << ctype(ai->getAllocatedType()) << " " << o;
            if(cnt != 1) decls << "[" << cnt << "]";
            decls << ";\n";
            names[&I] = "((u8*)&" + o + ")";
            return;
        }
        if(auto *li = dyn_cast<LoadInst>(&I))
        {
            string d = val(&I);
            // constant byte tables: assert the bounds, then index with 8 bits (a 64-bit index costs the solver a
            // 64-bit comparison per element)
            if(auto *ge = dyn_cast<GEPOperator>(li->getPointerOperand()))
                if(auto *g = dyn_cast<GlobalVariable>(ge->getPointerOperand()->stripPointerCasts()))
                    if(g->isConstant() && g->hasInitializer() && li->getType()->isIntegerTy(8) && isa<Instruction>(ge))
                        if(auto *cd = dyn_cast<ConstantDataArray>(g->getInitializer()))
                            if(cd->getElementType()->isIntegerTy(8) && cd->getNumElements() <= 256 && cd->getNumElements() > 16)
                            {
                                string off = gepOffset(ge, [this](const Value *v){ return val(v); });
                                if(off.empty()) off = "0";
                                body << "  __CPROVER_assert((u64)(" << off << ") < " << cd->getNumElements() << ", \"table read in bounds\");\n";
                                body << "  " << d << " = (*(" << ctype(g->getValueType()) << "*)" << val(g) << ").a[(u8)(" << off << ")];\n";
                                return;
                            }
            body << "  " << d << " = *(" << ctype(li->getType()) << "*)" << val(li->getPointerOperand()) << ";\n";
            return;
        }
        if(auto *si = dyn_cast<StoreInst>(&I))
        {
            body << "  *(" << ctype(si->getValueOperand()->getType()) << "*)" << val(si->getPointerOperand()) << " = " << val(si->getValueOperand()) << ";\n";
            return;
        }
        if(auto *gep = dyn_cast<GetElementPtrInst>(&I))
        {
            string off = gepOffset(cast<GEPOperator>(&I), [this](const Value *v){ return val(v); });
            string b = val(gep->getPointerOperand());
            body << "  " << val(&I) << " = " << b << (off.empty() ? "" : "+" + off) << ";\n";
            return;
        }
        if(auto *bo = dyn_cast<BinaryOperator>(&I))
        {
            const Value *x = I.getOperand(0), *y = I.getOperand(1);
            string d = val(&I);
            if(bo->getType()->isVectorTy()) die("vector op", &I);
            if(bo->getType()->isFloatingPointTy())
            {
                const char *op = nullptr;
                switch(bo->getOpcode())
                {
                case Instruction::FAdd: op = "+"; break; case Instruction::FSub: op = "-"; break;
                case Instruction::FMul: op = "*"; break; case Instruction::FDiv: op = "/"; break;
                default: die("fp op", &I);
                }
                body << "  " << d << " = " << val(x) << op << val(y) << ";\n";
                return;
            }
            unsigned w = W(x); string T = itype(w);
            if(auto *cy = dyn_cast<ConstantInt>(y)) if((w == 32 || w == 64) && (cy->getValue() == 10 || cy->getValue() == 100))
            {   // see vf_udivc in prelude.h
                switch(bo->getOpcode())
                {
                case Instruction::UDiv: body << "  " << d << " = (" << T << ")vf_udivc(" << val(x) << "," << val(y) << ");\n"; return;
                case Instruction::URem: body << "  " << d << " = (" << T << ")vf_uremc(" << val(x) << "," << val(y) << ");\n"; return;
                case Instruction::SDiv: body << "  " << d << " = (" << T << ")vf_sdivc(" << sval(x) << "," << sval(y) << ");\n"; return;
                case Instruction::SRem: body << "  " << d << " = (" << T << ")vf_sremc(" << sval(x) << "," << sval(y) << ");\n"; return;
                default: break;
                }
            }
            if(auto *cy = dyn_cast<ConstantInt>(y)) if(w <= 64 && cy->getValue().isPowerOf2() && (w == 8 || w == 16 || w == 32 || w == 64))
            {   // unsigned division by a power of two: no divider circuit
                unsigned k = cy->getValue().logBase2();
                switch(bo->getOpcode())
                {
                case Instruction::UDiv: body << "  " << d << " = (" << T << ")(" << wide(x) << ">>" << k << ");\n"; return;
                case Instruction::URem: body << "  " << d << " = (" << T << ")(" << wide(x) << "&" << (cy->getZExtValue() - 1) << "ULL);\n"; return;
                default: break;
                }
            }
            switch(bo->getOpcode())
            {
            case Instruction::Add: body << "  " << d << " = (" << T << ")(" << wide(x) << "+" << wide(y) << ");\n"; return;
            case Instruction::Sub: body << "  " << d << " = (" << T << ")(" << wide(x) << "-" << wide(y) << ");\n"; return;
            case Instruction::Mul: if((w == 32 || w == 64) && !isa<ConstantInt>(x) && !isa<ConstantInt>(y)) { body << "  " << d << " = vf_mul" << w << "(" << val(x) << "," << val(y) << ");\n"; return; }
                body << "  " << d << " = (" << T << ")(" << wide(x) << "*" << wide(y) << ");\n"; return;
            case Instruction::UDiv: body << "  " << d << " = (" << T << ")(" << wide(x) << "/" << wide(y) << ");\n"; return;
            case Instruction::URem: body << "  " << d << " = (" << T << ")(" << wide(x) << "%" << wide(y) << ");\n"; return;
            case Instruction::SDiv: body << "  " << d << " = (" << T << ")(" << sval(x) << "/" << sval(y) << ");\n"; return;
            case Instruction::SRem: body << "  " << d << " = (" << T << ")(" << sval(x) << "%" << sval(y) << ");\n"; return;
            case Instruction::And: body << "  " << d << " = (" << T << ")(" << wide(x) << "&" << wide(y) << ");\n"; return;
            case Instruction::Or: body << "  " << d << " = (" << T << ")(" << wide(x) << "|" << wide(y) << ");\n"; return;
            case Instruction::Xor: body << "  " << d << " = (" << T << ")(" << wide(x) << "^" << wide(y) << ");\n"; return;
            case Instruction::Shl: body << "  " << d << " = (" << T << ")(" << wide(x) << "<<(" << val(y) << "&" << (w-1) << "));\n"; break;
            case Instruction::LShr: body << "  " << d << " = (" << T << ")(" << wide(x) << ">>(" << val(y) << "&" << (w-1) << "));\n"; break;
            case Instruction::AShr: body << "  " << d << " = (" << T << ")(" << sval(x) << ">>(" << val(y) << "&" << (w-1) << "));\n"; break;
            default: die("binop", &I);
            }
            if((w & (w-1)) != 0 && !isa<ConstantInt>(y)) die("variable shift on odd width", &I);
            if(auto *ci = dyn_cast<ConstantInt>(y)) if((w & (w-1)) != 0)
            {   // the mask above is wrong for odd widths; rewrite
                (void)ci; die("shift on odd width", &I);
            }
            return;
        }
        if(auto *ic = dyn_cast<ICmpInst>(&I))
        {
            const Value *x = I.getOperand(0), *y = I.getOperand(1);
            string d = val(&I); const char *op = nullptr; bool sg = ic->isSigned();
            switch(ic->getPredicate())
            {
            case CmpInst::ICMP_EQ: op = "=="; break; case CmpInst::ICMP_NE: op = "!="; break;
            case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: op = ">"; break;
            case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: op = ">="; break;
            case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: op = "<"; break;
            case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: op = "<="; break;
            default: die("icmp", &I);
            }
            if(x->getType()->isPointerTy())
            {
                if(ic->isEquality()) body << "  " << d << " = " << val(x) << op << val(y) << ";\n";
                else body << "  " << d << " = (u64)" << val(x) << op << "(u64)" << val(y) << ";\n";
            }
            else if(sg) body << "  " << d << " = " << sval(x) << op << sval(y) << ";\n";
            else body << "  " << d << " = " << val(x) << op << val(y) << ";\n";
            return;
        }
        if(auto *fc = dyn_cast<FCmpInst>(&I))
        {
            string x = val(I.getOperand(0)), y = val(I.getOperand(1)), d = val(&I);
            string uno = "(" + x + "!=" + x + "||" + y + "!=" + y + ")";
            string e;
            switch(fc->getPredicate())
            {
            case CmpInst::FCMP_OEQ: e = x + "==" + y; break;
            case CmpInst::FCMP_OGT: e = x + ">" + y; break;
            case CmpInst::FCMP_OGE: e = x + ">=" + y; break;
            case CmpInst::FCMP_OLT: e = x + "<" + y; break;
            case CmpInst::FCMP_OLE: e = x + "<=" + y; break;
            case CmpInst::FCMP_ONE: e = "!" + uno + "&&" + x + "!=" + y; break;
            case CmpInst::FCMP_ORD: e = "!" + uno; break;
            case CmpInst::FCMP_UNO: e = uno; break;
            case CmpInst::FCMP_UEQ: e = uno + "||" + x + "==" + y; break;
            case CmpInst::FCMP_UGT: e = uno + "||" + x + ">" + y; break;
            case CmpInst::FCMP_UGE: e = uno + "||" + x + ">=" + y; break;
            case CmpInst::FCMP_ULT: e = uno + "||" + x + "<" + y; break;
            case CmpInst::FCMP_ULE: e = uno + "||" + x + "<=" + y; break;
            case CmpInst::FCMP_UNE: e = x + "!=" + y; break;
            case CmpInst::FCMP_TRUE: e = "1"; break; case CmpInst::FCMP_FALSE: e = "0"; break;
            default: die("fcmp", &I);
            }
            body << "  " << d << " = (" << e << ");\n";
            return;
        }
        if(auto *un = dyn_cast<UnaryOperator>(&I))
        {
            if(un->getOpcode() == Instruction::FNeg) { body << "  " << val(&I) << " = -" << val(un->getOperand(0)) << ";\n"; return; }
            die("unary", &I);
        }
        if(auto *ci = dyn_cast<CastInst>(&I))
        {
            const Value *x = ci->getOperand(0); string d = val(&I), T = ctype(ci->getType());
            switch(ci->getOpcode())
            {
            case Instruction::Trunc:
                if(ci->getType()->isIntegerTy(1)) body << "  " << d << " = (u1)(" << val(x) << "&1);\n";
                else body << "  " << d << " = (" << T << ")" << val(x) << ";\n";
                return;
            case Instruction::ZExt: body << "  " << d << " = (" << T << ")" << val(x) << ";\n"; return;
            case Instruction::SExt:
                if(x->getType()->isIntegerTy(1)) body << "  " << d << " = " << val(x) << " ? (" << T << ")-1 : (" << T << ")0;\n";
                else body << "  " << d << " = (" << T << ")(" << stype(W(&I)) << ")" << sval(x) << ";\n";
                return;
            case Instruction::PtrToInt: body << "  " << d << " = (" << T << ")(u64)" << val(x) << ";\n"; return;
            case Instruction::IntToPtr: body << "  " << d << " = (u8*)(u64)" << val(x) << ";\n"; return;
            case Instruction::UIToFP: body << "  " << d << " = (" << T << ")" << val(x) << ";\n"; return;
            case Instruction::SIToFP: body << "  " << d << " = (" << T << ")" << sval(x) << ";\n"; return;
            case Instruction::FPToUI: body << "  " << d << " = (" << T << ")" << val(x) << ";\n"; return;
            case Instruction::FPToSI: body << "  " << d << " = (" << T << ")(" << stype(W(&I)) << ")" << val(x) << ";\n"; return;
            case Instruction::FPTrunc: case Instruction::FPExt: body << "  " << d << " = (" << T << ")" << val(x) << ";\n"; return;
            case Instruction::BitCast:
            {
                if(x->getType()->isPointerTy()) { body << "  " << d << " = " << val(x) << ";\n"; return; }
                string t = "t" + std::to_string(ntmp++);
                decls << "  union { " << ctype(x->getType()) << " x; " << T << " y; } " << t << ";\n";
                body << "  " << t << ".x = " << val(x) << "; " << d << " = " << t << ".y;\n";
                return;
            }
            default: die("cast", &I);
            }
        }
        if(auto *se = dyn_cast<SelectInst>(&I))
        {
            body << "  " << val(&I) << " = " << val(se->getCondition()) << " ? " << val(se->getTrueValue()) << " : " << val(se->getFalseValue()) << ";\n";
            return;
        }
        if(auto *ev = dyn_cast<ExtractValueInst>(&I))
        {
            string e = val(ev->getAggregateOperand()); Type *t = ev->getAggregateOperand()->getType();
            for(unsigned i : ev->indices())
            {
                if(auto *st = dyn_cast<StructType>(t)) { e += ".f" + std::to_string(i); t = st->getElementType(i); }
                else { e += ".a[" + std::to_string(i) + "]"; t = cast<ArrayType>(t)->getElementType(); }
            }
            body << "  " << val(&I) << " = " << e << ";\n";
            return;
        }
        if(auto *iv = dyn_cast<InsertValueInst>(&I))
        {
            string d = val(&I);
            if(!isa<UndefValue>(iv->getAggregateOperand())) body << "  " << d << " = " << val(iv->getAggregateOperand()) << ";\n";
            string e = d; Type *t = I.getType();
            for(unsigned i : iv->indices())
            {
                if(auto *st = dyn_cast<StructType>(t)) { e += ".f" + std::to_string(i); t = st->getElementType(i); }
                else { e += ".a[" + std::to_string(i) + "]"; t = cast<ArrayType>(t)->getElementType(); }
            }
            body << "  " << e << " = " << val(iv->getInsertedValueOperand()) << ";\n";
            return;
        }
        if(auto *fr = dyn_cast<FreezeInst>(&I)) { body << "  " << val(&I) << " = " << val(fr->getOperand(0)) << ";\n"; return; }
        if(auto *ci = dyn_cast<CallInst>(&I)) { call(*ci); return; }
        if(auto *br = dyn_cast<BranchInst>(&I))
        {
            const BasicBlock *bb = br->getParent();
            if(br->isUnconditional()) { edge(bb, br->getSuccessor(0), "  "); return; }
            if(br->getSuccessor(0) == br->getSuccessor(1)) { edge(bb, br->getSuccessor(0), "  "); return; }
            body << "  if(" << val(br->getCondition()) << ") {\n"; edge(bb, br->getSuccessor(0), "    ");
            body << "  } else {\n"; edge(bb, br->getSuccessor(1), "    "); body << "  }\n";
            return;
        }
        if(auto *sw = dyn_cast<SwitchInst>(&I))
        {
            const BasicBlock *bb = sw->getParent();
            string c = val(sw->getCondition());
            for(auto &cs : sw->cases())
            {
                body << "  if(" << c << " == " << cexpr(cs.getCaseValue()) << ") {\n";
                edge(bb, cs.getCaseSuccessor(), "    ");
                body << "  }\n";
            }
            edge(bb, sw->getDefaultDest(), "  ");
            return;
        }
        if(auto *rt = dyn_cast<ReturnInst>(&I))
        {
            if(rt->getReturnValue()) body << "  return " << val(rt->getReturnValue()) << ";\n";
            else body << "  return;\n";
            return;
        }
        if(isa<UnreachableInst>(I)) { body << "  __CPROVER_assert(0, \"UNREACHABLE reached\"); __CPROVER_assume(0);\n"; return; }
        if(auto *rmw = dyn_cast<AtomicRMWInst>(&I))
        {
            string d = val(&I), p = val(rmw->getPointerOperand()), T = ctype(I.getType());
            body << "  " << d << " = *(" << T << "*)" << p << ";\n";
            const char *op = rmw->getOperation() == AtomicRMWInst::Add ? "+" : rmw->getOperation() == AtomicRMWInst::Sub ? "-" : nullptr;
            if(!op) die("atomicrmw", &I);
            body << "  *(" << T << "*)" << p << " = (" << T << ")(" << d << op << val(rmw->getValOperand()) << ");\n";
            return;
        }
        if(isa<FenceInst>(I)) return;
        die("instruction", &I);
    }

    // loop-aware topological order: blocks of a loop are contiguous
    void order(std::vector<const BasicBlock*> &out, LoopInfo &LI)
    {
        Function &f = const_cast<Function&>(F);
        ReversePostOrderTraversal<Function*> rpot(&f);
        std::vector<BasicBlock*> rpo(rpot.begin(), rpot.end());
        std::function<void(Loop*, std::vector<BasicBlock*>&)> rec = [&](Loop *L, std::vector<BasicBlock*> &blocks)
        {
            std::set<Loop*> done;
            // RPO restricted to this level; a subloop is emitted at its first (header) position.
            // To keep exits after the loop body, build the condensed graph and topologically sort it.
            std::vector<std::pair<Loop*, BasicBlock*>> nodes; // (subloop or null, block)
            std::map<BasicBlock*, int> id;
            std::map<Loop*, int> lid;
            for(BasicBlock *b : blocks)
            {
                Loop *bl = LI.getLoopFor(b);
                while(bl && bl->getParentLoop() != L) bl = bl->getParentLoop();
                if(bl)
                {
                    if(!lid.count(bl)) { lid[bl] = (int)nodes.size(); nodes.push_back({bl, nullptr}); }
                    id[b] = lid[bl];
                }
                else { id[b] = (int)nodes.size(); nodes.push_back({nullptr, b}); }
            }
            std::vector<std::set<int>> succ(nodes.size());
            BasicBlock *hdr = L ? L->getHeader() : nullptr;
            for(BasicBlock *b : blocks) for(BasicBlock *s : successors(b))
            {
                if(s == hdr || !id.count(s)) continue;
                if(id[s] != id[b]) succ[id[b]].insert(id[s]);
            }
            std::vector<int> state(nodes.size(), 0), post;
            std::function<void(int)> dfs = [&](int u)
            {
                state[u] = 1;
                // visit successors in reverse numbering for a stable order
                for(auto it = succ[u].rbegin(); it != succ[u].rend(); ++it) if(!state[*it]) dfs(*it);
                post.push_back(u);
            };
            for(size_t i = 0; i < nodes.size(); ++i) if(!state[i]) dfs((int)i);
            std::reverse(post.begin(), post.end());
            for(int u : post)
            {
                if(nodes[u].first)
                {
                    std::vector<BasicBlock*> sub;
                    for(BasicBlock *b : blocks) if(nodes[u].first->contains(b)) sub.push_back(b);
                    rec(nodes[u].first, sub);
                }
                else out.push_back(nodes[u].second);
            }
        };
        rec(nullptr, rpo);
    }

    static string signature(const Function &F, std::map<const Value*, string> *names=nullptr)
    {
        string s = ctype(F.getReturnType()) + " " + gname(&F) + "(";
        unsigned i = 0;
        for(const Argument &a : F.args())
        {
            string an = "arg" + std::to_string(i);
            if(names) (*names)[&a] = an;
            s += (i++ ? ", " : "") + ctype(a.getType()) + " " + an;
        }
        if(i == 0) s += "void";
        return s + ")";
    }

    string emit()
    {
        string sig = signature(F, &names);
        DominatorTree DT(const_cast<Function&>(F));
        LoopInfo LI(DT);
        std::vector<const BasicBlock*> ord;
        order(ord, LI);
        unsigned k = 0;
        for(auto *b : ord) bbn[b] = "L" + std::to_string(k++);
        for(const Argument &a : F.args()) if(a.hasByValAttr())
        {
            string o = "bv" + std::to_string(n++), T = ctype(a.getParamByValType());
            decls << "  " << T << " " << o << ";\n";
            body << "  " << o << " = *(" << T << "*)" << names[&a] << "; " << names[&a] << " = (u8*)&" << o << ";\n";
        }
        bool first = true;
        for(auto *b : ord)
        {
            if(!first) body << bbn[b] << ":;\n";
            else { body << bbn[b] << ":;\n"; first = false; }
            for(const Instruction &I : *b) inst(I);
        }
        std::ostringstream r;
        r << sig << "\n{ // " << demangle(F.getName().str()) << "\n" << decls.str() << body.str() << "}\n\n";
        return r.str();
    }
};

int main(int argc, char **argv)
{
    if(argc < 4) { std::cerr << "usage: ll2c in entry out.c\n"; return 2; }
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if(!m) { err.print("ll2c", errs()); return 2; }
    M = m.get(); DL = &M->getDataLayout();
    string entry = argv[2];

    // reachable functions/globals from entry + global ctors
    std::vector<Function*> fns;
    std::ostringstream fnText, protos, globs, gdecl;
    Function *E = M->getFunction(entry);
    if(!E) { std::cerr << "no entry " << entry << "\n"; return 2; }
    std::set<const Value*> seen; std::vector<const GlobalValue*> work;
    std::function<void(const Value*)> touch = [&](const Value *v)
    {
        if(auto *gv = dyn_cast<GlobalValue>(v)) { if(seen.insert(gv).second) work.push_back(gv); return; }
        if(auto *c = dyn_cast<Constant>(v)) { if(seen.insert(c).second) for(auto &o : c->operands()) touch(o.get()); }
    };
    touch(E);
    std::vector<Function*> ctors;
    if(auto *gc = M->getGlobalVariable("llvm.global_ctors"))
        if(gc->hasInitializer())
            if(auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for(auto &o : ca->operands())
                    if(auto *f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts())) { ctors.push_back(f); touch(f); }
    std::vector<const GlobalVariable*> gvs;
    while(!work.empty())
    {
        const GlobalValue *g = work.back(); work.pop_back();
        if(auto *f = dyn_cast<Function>(g))
        {
            if(f->isIntrinsic()) continue;
            if(f->isDeclaration()) continue;
            fns.push_back(const_cast<Function*>(f));
            for(auto &bb : *f) for(auto &i : bb) for(auto &o : i.operands()) touch(o.get());
        }
        else if(auto *v = dyn_cast<GlobalVariable>(g))
        {
            gvs.push_back(v);
            if(v->hasInitializer()) touch(v->getInitializer());
        }
        else if(auto *a = dyn_cast<GlobalAlias>(g)) touch(a->getAliasee());
    }
    for(auto *v : seen) if(auto *f = dyn_cast<Function>(v)) if(f->isDeclaration() && !f->isIntrinsic())
    {
        StringRef nm = f->getName();
        if(nm.starts_with("vf_") && (nm == "vf_assert" || nm == "vf_cover" || nm == "vf_fail" || nm == "vf_assume" || nm == "vf_param")) continue;
        if(nm.starts_with("_ZN2c412handle_error")) continue;
        FnEmitter::noteExt(f);
    }
    for(auto *f : fns) protos << "static " << FnEmitter::signature(*f) << ";\n";
    for(auto *f : fns) fnText << "static " << FnEmitter(*f).emit();
    std::sort(gvs.begin(), gvs.end(), [](auto *a, auto *b){ return a->getName() < b->getName(); });
    for(auto *v : gvs)
    {
        if(v->getName().starts_with("llvm.")) continue;
        if(!v->hasInitializer())
        {
            gdecl << "/* external */ static " << ctype(v->getValueType()) << " " << gname(v) << ";\n";
            continue;
        }
        gdecl << "static " << ctype(v->getValueType()) << " " << gname(v) << ";\n";
        globs << "static " << ctype(v->getValueType()) << " " << gname(v) << " = " << cexpr(v->getInitializer(), true) << ";\n";
    }
    std::ofstream o(argv[3]);
    o << "/* generated by ll2c */\n";
    for(unsigned w : oddWidths) o << "VF_BITS(" << w << ")\n";
    o << typeDefs.str() << "\n";
    for(auto &d : extDecls)
    {
        string mac = "HAVE_ext_" + sanitize(d.first);
        o << "#ifndef " << mac << "\n" << d.second << "\n{ __CPROVER_assert(0, \"UNMODELLED external " << d.first << "\"); __CPROVER_assume(0); ";
        if(d.second.rfind("void ", 0) != 0) o << "__builtin_unreachable(); ";
        o << "}\n#endif\n";
    }
    o << gdecl.str() << protos.str() << globs.str() << "\n" << fnText.str();
    o << "void vf_main(void)\n{\n";
    for(auto *f : ctors) o << "  " << gname(f) << "();\n";
    o << "  " << gname(E) << "();\n}\n";
    return 0;
}

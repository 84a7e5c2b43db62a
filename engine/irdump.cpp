// irdump: prints an LLVM module as JSON for the abstract interpreter (absint.py).
// Usage: irdump in.bc out.json
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>

using namespace llvm;

static const DataLayout* DL;
static json::OStream* J;
static std::map<const Value*, int> ids;

static void type(Type* t)
{
    if (t->isVoidTy()) { J->value("v"); return; }
    if (t->isIntegerTy()) { J->value(("i" + Twine(t->getIntegerBitWidth())).str()); return; }
    if (t->isPointerTy()) { J->value("p"); return; }
    if (t->isFloatTy()) { J->value("f32"); return; }
    if (t->isFloatingPointTy()) { J->value("f64"); return; }
    if (auto* s = dyn_cast<StructType>(t))
    {
        if (s->isOpaque()) { J->value("opaque"); return; }
        J->array([&] {
            J->value("s");
            J->value((int64_t)DL->getTypeAllocSize(s));
            J->array([&] {
                auto* l = DL->getStructLayout(s);
                for (unsigned i = 0; i < s->getNumElements(); ++i)
                    J->array([&] { J->value((int64_t)l->getElementOffset(i)); type(s->getElementType(i)); });
            });
        });
        return;
    }
    if (auto* a = dyn_cast<ArrayType>(t))
    {
        J->array([&] {
            J->value("a");
            J->value((int64_t)DL->getTypeAllocSize(a));
            J->value((int64_t)a->getNumElements());
            J->value((int64_t)DL->getTypeAllocSize(a->getElementType()));
            type(a->getElementType());
        });
        return;
    }
    std::string s;
    raw_string_ostream os(s);
    t->print(os);
    J->value("?" + s);
}

static void constant(const Constant* c);

static void intval(const APInt& v)
{
    SmallString<40> s;
    v.toString(s, 10, false);
    if (v.getActiveBits() <= 62) J->value((int64_t)v.getZExtValue());
    else J->value(s.str());
}

static void operand(const Value* v)
{
    auto it = ids.find(v);
    if (it != ids.end())
    {
        J->array([&] { J->value("l"); J->value(it->second); });
        return;
    }
    if (auto* c = dyn_cast<Constant>(v)) { constant(c); return; }
    if (isa<MetadataAsValue>(v)) { J->array([&] { J->value("md"); }); return; }
    J->array([&] { J->value("x"); J->value(v->getName()); });
}

static void constant(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        J->array([&] { J->value("c"); J->value((int64_t)ci->getBitWidth()); intval(ci->getValue()); });
        return;
    }
    if (isa<ConstantPointerNull>(c)) { J->array([&] { J->value("n"); }); return; }
    if (isa<UndefValue>(c)) { J->array([&] { J->value("u"); type(c->getType()); }); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        J->array([&] {
            J->value("f");
            SmallString<40> s;
            cf->getValueAPF().toString(s);
            J->value(s.str());
            intval(cf->getValueAPF().bitcastToAPInt());
            type(c->getType());
        });
        return;
    }
    if (auto* gv = dyn_cast<GlobalValue>(c))
    {
        if (auto* al = dyn_cast<GlobalAlias>(gv))
            if (auto* o = al->getAliaseeObject()) gv = o;
        J->array([&] {
            J->value(isa<Function>(gv) ? "fn" : "g");
            J->value(gv->getName());
            J->value(0);
        });
        return;
    }
    if (isa<ConstantAggregateZero>(c)) { J->array([&] { J->value("z"); type(c->getType()); }); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if (ce->getOpcode() == Instruction::GetElementPtr || ce->isCast())
        {
            APInt off(64, 0);
            if (ce->getType()->isPointerTy())
            {
                const Value* base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
                if (auto* gv = dyn_cast<GlobalValue>(base))
                {
                    J->array([&] {
                        J->value(isa<Function>(gv) ? "fn" : "g");
                        J->value(gv->getName());
                        J->value(off.getSExtValue());
                    });
                    return;
                }
            }
            if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::Trunc)
            {
                J->array([&] { J->value("cast"); J->value(ce->getOpcodeName()); type(ce->getType()); constant(ce->getOperand(0)); });
                return;
            }
        }
        if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add)
        {
            J->array([&] { J->value("bin"); J->value(ce->getOpcodeName()); type(ce->getType()); constant(ce->getOperand(0)); constant(ce->getOperand(1)); });
            return;
        }
        J->array([&] { J->value("ce"); J->value(ce->getOpcodeName()); });
        return;
    }
    if (auto* ds = dyn_cast<ConstantDataSequential>(c))
    {
        J->array([&] {
            J->value("data");
            J->value((int64_t)ds->getElementByteSize());
            J->array([&] {
                for (unsigned i = 0; i < ds->getNumElements(); ++i)
                    if (ds->getElementType()->isIntegerTy()) intval(ds->getElementAsAPInt(i));
                    else intval(ds->getElementAsAPFloat(i).bitcastToAPInt());
            });
        });
        return;
    }
    if (isa<ConstantAggregate>(c))
    {
        J->array([&] {
            J->value("agg");
            type(c->getType());
            J->array([&] {
                for (unsigned i = 0; i < c->getNumOperands(); ++i) constant(cast<Constant>(c->getOperand(i)));
            });
        });
        return;
    }
    J->array([&] { J->value("?"); });
}

static void inst(const Instruction& I, const std::map<const BasicBlock*, int>& bbs)
{
    J->object([&] {
        J->attribute("op", I.getOpcodeName());
        auto it = ids.find(&I);
        if (it != ids.end()) J->attribute("id", it->second);
        J->attributeBegin("ty"); type(I.getType()); J->attributeEnd();
        if (auto& dl = I.getDebugLoc())
        {
            J->attribute("line", (int64_t)dl.getLine());
            J->attribute("col", (int64_t)dl.getCol());
            if (auto* sc = dyn_cast<DIScope>(dl.getScope())) J->attribute("file", sc->getFilename());
        }
        auto ops = [&](unsigned from, unsigned to) {
            J->attributeBegin("ops");
            J->array([&] { for (unsigned i = from; i < to; ++i) operand(I.getOperand(i)); });
            J->attributeEnd();
        };
        if (auto* p = dyn_cast<PHINode>(&I))
        {
            J->attributeArray("inc", [&] {
                for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                    J->array([&] { J->value(bbs.at(p->getIncomingBlock(i))); operand(p->getIncomingValue(i)); });
            });
            return;
        }
        if (auto* b = dyn_cast<BranchInst>(&I))
        {
            if (b->isConditional()) { J->attributeBegin("cond"); operand(b->getCondition()); J->attributeEnd(); }
            J->attributeArray("succ", [&] { for (unsigned i = 0; i < b->getNumSuccessors(); ++i) J->value(bbs.at(b->getSuccessor(i))); });
            return;
        }
        if (auto* s = dyn_cast<SwitchInst>(&I))
        {
            J->attributeBegin("cond"); operand(s->getCondition()); J->attributeEnd();
            J->attribute("default", bbs.at(s->getDefaultDest()));
            J->attributeArray("cases", [&] {
                for (auto& c : s->cases())
                    J->array([&] { constant(c.getCaseValue()); J->value(bbs.at(c.getCaseSuccessor())); });
            });
            return;
        }
        if (auto* a = dyn_cast<AllocaInst>(&I))
        {
            J->attribute("size", (int64_t)DL->getTypeAllocSize(a->getAllocatedType()));
            J->attributeBegin("count"); operand(a->getArraySize()); J->attributeEnd();
            return;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&I))
        {
            APInt off(64, 0);
            MapVector<Value*, APInt> vars;
            bool ok = cast<GEPOperator>(g)->collectOffset(*DL, 64, vars, off);
            J->attribute("ok", ok);
            J->attribute("off", off.getSExtValue());
            J->attribute("inbounds", g->isInBounds());
            J->attributeArray("vars", [&] {
                for (auto& v : vars)
                    J->array([&] { operand(v.first); J->value(v.second.getSExtValue()); J->value((int64_t)v.first->getType()->getIntegerBitWidth()); });
            });
            ops(0, 1);
            return;
        }
        if (auto* c = dyn_cast<CallBase>(&I))
        {
            J->attributeBegin("callee"); operand(c->getCalledOperand()); J->attributeEnd();
            J->attributeArray("ops", [&] { for (auto& a : c->args()) operand(a.get()); });
            J->attributeArray("byval", [&] {
                for (unsigned i = 0; i < c->arg_size(); ++i)
                    J->value(c->isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(c->getParamByValType(i)) : (int64_t)0);
            });
            if (auto* inv = dyn_cast<InvokeInst>(&I))
            {
                J->attribute("normal", bbs.at(inv->getNormalDest()));
                J->attribute("unwind", bbs.at(inv->getUnwindDest()));
            }
            return;
        }
        if (auto* c = dyn_cast<CmpInst>(&I)) J->attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
        if (auto* o = dyn_cast<OverflowingBinaryOperator>(&I))
        {
            if (o->hasNoSignedWrap()) J->attribute("nsw", true);
            if (o->hasNoUnsignedWrap()) J->attribute("nuw", true);
        }
        if (auto* l = dyn_cast<LoadInst>(&I))
        {
            J->attribute("size", (int64_t)DL->getTypeStoreSize(l->getType()));
        }
        if (auto* s = dyn_cast<StoreInst>(&I))
        {
            J->attribute("size", (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()));
            J->attributeBegin("vty"); type(s->getValueOperand()->getType()); J->attributeEnd();
        }
        if (auto* e = dyn_cast<ExtractValueInst>(&I))
            J->attributeArray("idx", [&] { for (auto i : e->indices()) J->value((int64_t)i); });
        if (auto* e = dyn_cast<InsertValueInst>(&I))
            J->attributeArray("idx", [&] { for (auto i : e->indices()) J->value((int64_t)i); });
        if (isa<CastInst>(&I) || isa<CmpInst>(&I))
        {
            J->attributeBegin("sty"); type(I.getOperand(0)->getType()); J->attributeEnd();
        }
        if (auto* lp = dyn_cast<LandingPadInst>(&I))
        {
            J->attribute("cleanup", lp->isCleanup());
            J->attributeArray("clauses", [&] { for (unsigned i = 0; i < lp->getNumClauses(); ++i) operand(lp->getClause(i)); });
            return;
        }
        ops(0, I.getNumOperands());
    });
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("irdump", errs()); return 2; }
    DL = &m->getDataLayout();
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    json::OStream j(os);
    J = &j;
    j.object([&] {
        j.attributeObject("globals", [&] {
            for (auto& g : m->globals())
                j.attributeObject(g.getName(), [&] {
                    j.attribute("dem", demangle(g.getName().str()));
                    j.attribute("const", g.isConstant());
                    j.attribute("size", (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : TypeSize::getFixed(0)));
                    j.attributeBegin("ty"); type(g.getValueType()); j.attributeEnd();
                    if (g.hasInitializer()) { j.attributeBegin("init"); constant(g.getInitializer()); j.attributeEnd(); }
                });
        });
        j.attributeArray("ctors", [&] {
            if (auto* g = m->getGlobalVariable("llvm.global_ctors"))
                if (auto* a = dyn_cast<ConstantArray>(g->getInitializer()))
                    for (auto& o : a->operands())
                        if (auto* f = dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1u)))
                            j.value(f->getName());
        });
        j.attributeObject("funcs", [&] {
            for (auto& f : *m)
                j.attributeObject(f.getName(), [&] {
                    j.attribute("dem", demangle(f.getName().str()));
                    j.attribute("noreturn", f.doesNotReturn());
                    j.attribute("nounwind", f.doesNotThrow());
                    if (auto* sp = f.getSubprogram())
                    {
                        j.attribute("file", sp->getFilename());
                        j.attribute("line", (int64_t)sp->getLine());
                    }
                    j.attributeBegin("ret"); type(f.getReturnType()); j.attributeEnd();
                    ids.clear();
                    int n = 0;
                    std::map<const BasicBlock*, int> bbs;
                    for (auto& a : f.args()) ids[&a] = n++;
                    int b = 0;
                    for (auto& bb : f)
                    {
                        bbs[&bb] = b++;
                        for (auto& i : bb)
                            if (!i.getType()->isVoidTy()) ids[&i] = n++;
                    }
                    j.attributeArray("args", [&] {
                        for (auto& a : f.args()) type(a.getType());
                    });
                    j.attributeArray("sret", [&] {
                        for (auto& a : f.args()) j.value(a.hasStructRetAttr());
                    });
                    j.attribute("vararg", f.isVarArg());
                    if (!f.isDeclaration())
                        j.attributeArray("blocks", [&] {
                            for (auto& bb : f)
                                j.array([&] {
                                    for (auto& i : bb)
                                        if (!isa<DbgInfoIntrinsic>(i)) inst(i, bbs);
                                });
                        });
                });
        });
    });
    os << "\n";
    return 0;
}

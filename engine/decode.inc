// Decoding of LLVM functions into a flat register form.
enum { BC_NONE = 0 };
typedef int HandlerId;
static HandlerId findHandler(Function* F);  // exec.inc

struct Decoder {
  FuncInfo* fi;
  std::unordered_map<const Value*, std::pair<int, unsigned>> slot;
  std::unordered_map<const BasicBlock*, int> bid;
  int alloc(const Value* v) {
    unsigned n = flat(v->getType()).size();
    int s = fi->nslots;
    fi->nslots += n;
    slot[v] = {s, n};
    return s;
  }
  Opnd op(const Value* v) {
    Opnd o;
    if (auto* C = dyn_cast<Constant>(v)) { constVals(C, o.k); return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { o.k.push_back(cst(0)); return o; }
    o.slot = slot.at(v).first;
    return o;
  }
  static unsigned aggOff(Type* T, ArrayRef<unsigned> idx) {
    unsigned o = 0;
    for (unsigned i : idx) {
      if (auto* S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; j++) o += flat(S->getElementType(j)).size(); T = S->getElementType(i); }
      else { auto* A = cast<ArrayType>(T); o += i * flat(A->getElementType()).size(); T = A->getElementType(); }
    }
    return o;
  }
  void layout(Type* T, Ins& x) { for (auto& p : flat(T)) { x.aux.push_back(p.first); x.aux.push_back(p.second); } }

  void run(Function* F) {
    for (auto& A : F->args()) { int s = alloc(&A); fi->args.push_back({s, (unsigned)slot[&A].second}); }
    int n = 0;
    for (auto& B : *F) { bid[&B] = n++; for (auto& I : B) if (!I.getType()->isVoidTy()) alloc(&I); }
    fi->b.resize(n);
    for (auto& B : *F) {
      Blk& bk = fi->b[bid[&B]];
      for (auto& I : B) {
        if (auto* P = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
            int pb = bid[P->getIncomingBlock(k)];
            auto& v = bk.phis[pb];
            int d = slot[P].first;
            bool dup = false;
            for (auto& q : v) if (q.dst == d) dup = true;
            if (!dup) v.push_back({d, slot[P].second, op(P->getIncomingValue(k))});
          }
          continue;
        }
        Ins x;
        x.k = K_UNSUP;
        x.I = &I;
        if (!I.getType()->isVoidTy()) { x.dst = slot[&I].first; x.n = slot[&I].second; }
        try { one(I, x); } catch (Unsup& u) { x.k = K_UNSUP; }
        if (x.k != K_NOP) bk.ins.push_back(std::move(x));
      }
    }
  }
  void one(Instruction& I, Ins& x) {
    if (auto* BO = dyn_cast<BinaryOperator>(&I)) {
      x.w = scalarBits(BO->getType());
      x.sub = BO->getOpcode();
      x.k = BO->getType()->isFPOrFPVectorTy() ? K_FBIN : K_BIN;
      x.ops = {op(BO->getOperand(0)), op(BO->getOperand(1))};
    } else if (I.getOpcode() == Instruction::FNeg) {
      x.k = K_FNEG; x.w = scalarBits(I.getType()); x.ops = {op(I.getOperand(0))};
    } else if (auto* IC = dyn_cast<ICmpInst>(&I)) {
      x.k = K_ICMP; x.w = 1; x.kw = scalarBits(IC->getOperand(0)->getType()); x.sub = IC->getPredicate();
      x.ops = {op(IC->getOperand(0)), op(IC->getOperand(1))};
    } else if (auto* FC = dyn_cast<FCmpInst>(&I)) {
      x.k = K_FCMP; x.w = 1; x.kw = scalarBits(FC->getOperand(0)->getType()); x.sub = FC->getPredicate();
      x.ops = {op(FC->getOperand(0)), op(FC->getOperand(1))};
    } else if (auto* S = dyn_cast<SelectInst>(&I)) {
      x.k = K_SELECT; x.sub = flat(S->getCondition()->getType()).size();
      x.ops = {op(S->getCondition()), op(S->getTrueValue()), op(S->getFalseValue())};
      for (auto& p : flat(S->getType())) x.aux.push_back(p.second);
    } else if (auto* B = dyn_cast<BranchInst>(&I)) {
      if (B->isUnconditional()) { x.k = K_BR; x.tgt = {bid[B->getSuccessor(0)]}; }
      else { x.k = K_CBR; x.ops = {op(B->getCondition())}; x.tgt = {bid[B->getSuccessor(0)], bid[B->getSuccessor(1)]}; }
    } else if (auto* W = dyn_cast<SwitchInst>(&I)) {
      x.k = K_SWITCH; x.kw = scalarBits(W->getCondition()->getType()); x.ops = {op(W->getCondition())};
      x.tgt.push_back(bid[W->getDefaultDest()]);
      for (auto& c : W->cases()) { x.aux.push_back(c.getCaseValue()->getZExtValue()); x.tgt.push_back(bid[c.getCaseSuccessor()]); }
    } else if (auto* R = dyn_cast<ReturnInst>(&I)) {
      x.k = K_RET; if (R->getReturnValue()) { x.ops = {op(R->getReturnValue())}; x.n = flat(R->getReturnValue()->getType()).size(); } else x.n = 0;
    } else if (isa<UnreachableInst>(&I)) x.k = K_UNREACH;
    else if (auto* A = dyn_cast<AllocaInst>(&I)) {
      x.k = K_ALLOCA; x.aux = {DL->getTypeAllocSize(A->getAllocatedType())}; x.ops = {op(A->getArraySize())}; x.kw = scalarBits(A->getArraySize()->getType());
    } else if (auto* L = dyn_cast<LoadInst>(&I)) {
      x.k = K_LOAD; x.ops = {op(L->getPointerOperand())}; layout(L->getType(), x);
    } else if (auto* S2 = dyn_cast<StoreInst>(&I)) {
      x.k = K_STORE; x.ops = {op(S2->getPointerOperand()), op(S2->getValueOperand())}; layout(S2->getValueOperand()->getType(), x);
    } else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
      if (G->getType()->isVectorTy()) throw Unsup{"vector gep"};
      x.k = K_GEP; x.ops = {op(G->getPointerOperand())};
      int64_t c = 0;
      x.aux = {0};
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        Value* v = it.getOperand();
        if (StructType* ST = it.getStructTypeOrNull()) { c += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); continue; }
        uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(v)) { c += ci->getSExtValue() * (int64_t)sz; continue; }
        x.ops.push_back(op(v)); x.aux.push_back(sz); x.aux.push_back(scalarBits(v->getType()));
      }
      x.aux[0] = (uint64_t)c;
    } else if (auto* CI = dyn_cast<CastInst>(&I)) {
      x.k = K_CAST; x.sub = CI->getOpcode(); x.w = scalarBits(CI->getDestTy()); x.kw = scalarBits(CI->getSrcTy()); x.ops = {op(CI->getOperand(0))};
      if (x.w == 0 || x.kw == 0 || x.w == 80 || x.kw == 80) throw Unsup{"cast"};
      if (CI->getOpcode() == Instruction::BitCast) {
        unsigned sn = flat(CI->getSrcTy()).size();
        if (sn == x.n && x.w == x.kw) x.k = K_COPY, x.aux = {0};
        else x.aux = {sn};
      }
    } else if (isa<FreezeInst>(&I)) { x.k = K_COPY; x.aux = {0}; x.ops = {op(I.getOperand(0))}; }
    else if (auto* EV = dyn_cast<ExtractValueInst>(&I)) {
      x.k = K_COPY; x.aux = {aggOff(EV->getAggregateOperand()->getType(), EV->getIndices())}; x.ops = {op(EV->getAggregateOperand())};
    } else if (auto* IV = dyn_cast<InsertValueInst>(&I)) {
      x.k = K_INSERT; x.aux = {aggOff(IV->getType(), IV->getIndices()), flat(IV->getInsertedValueOperand()->getType()).size()};
      x.ops = {op(IV->getAggregateOperand()), op(IV->getInsertedValueOperand())};
    } else if (auto* EE = dyn_cast<ExtractElementInst>(&I)) {
      if (auto* c = dyn_cast<ConstantInt>(EE->getIndexOperand())) { x.k = K_COPY; x.aux = {c->getZExtValue()}; x.ops = {op(EE->getVectorOperand())}; }
      else throw Unsup{"dynamic extractelement"};
    } else if (auto* IE = dyn_cast<InsertElementInst>(&I)) {
      if (auto* c = dyn_cast<ConstantInt>(IE->getOperand(2))) { x.k = K_INSERT; x.aux = {c->getZExtValue(), 1}; x.ops = {op(IE->getOperand(0)), op(IE->getOperand(1))}; }
      else throw Unsup{"dynamic insertelement"};
    } else if (auto* SV2 = dyn_cast<ShuffleVectorInst>(&I)) {
      x.k = K_SHUF; x.kw = flat(SV2->getOperand(0)->getType()).size(); x.ops = {op(SV2->getOperand(0)), op(SV2->getOperand(1))};
      for (int m : SV2->getShuffleMask()) x.aux.push_back(m < 0 ? 0 : m);
    } else if (auto* CB = dyn_cast<CallBase>(&I)) {
      x.k = K_CALL;
      if (auto* II = dyn_cast<InvokeInst>(CB)) x.tgt = {bid[II->getNormalDest()]};
      if (auto* IN = dyn_cast<IntrinsicInst>(CB)) {
        switch (IN->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::pseudoprobe:
            x.k = K_NOP; return;
          default: break;
        }
      }
      if (CB->isInlineAsm()) { if (I.getType()->isVoidTy()) { x.k = K_NOP; return; } throw Unsup{"inline asm"}; }
      Value* cv = CB->getCalledOperand()->stripPointerCasts();
      if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
      x.callee = dyn_cast<Function>(cv);
      x.ops.push_back(x.callee ? Opnd() : op(CB->getCalledOperand()));
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        x.ops.push_back(op(CB->getArgOperand(i)));
        x.aux.push_back(CB->getArgOperand(i)->getType()->isMetadataTy() ? 1 : flat(CB->getArgOperand(i)->getType()).size());
      }
      for (unsigned i = 0; i < CB->arg_size(); i++) x.aux.push_back(CB->isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(CB->getParamByValType(i)) : 0);
      x.w = scalarBits(I.getType());
      x.kw = CB->arg_size() ? scalarBits(CB->getArgOperand(0)->getType()) : 0;
      if (x.callee) x.handler = findHandler(x.callee);
    } else if (auto* RM = dyn_cast<AtomicRMWInst>(&I)) {
      x.k = K_RMW; x.sub = RM->getOperation(); x.w = scalarBits(RM->getType()); x.ops = {op(RM->getPointerOperand()), op(RM->getValOperand())};
    } else if (auto* CX = dyn_cast<AtomicCmpXchgInst>(&I)) {
      x.k = K_CMPX; x.w = scalarBits(CX->getCompareOperand()->getType()); x.ops = {op(CX->getPointerOperand()), op(CX->getCompareOperand()), op(CX->getNewValOperand())};
    } else if (isa<FenceInst>(&I)) x.k = K_NOP;
    else throw Unsup{I.getOpcodeName()};
  }
};

static FuncInfo* getInfo(Function* F) {
  auto& p = infos[F];
  if (!p) {
    p.reset(new FuncInfo);
    p->F = F;
    p->name = demangle(F->getName().str());
    Decoder d;
    d.fi = p.get();
    d.run(F);
  }
  return p.get();
}

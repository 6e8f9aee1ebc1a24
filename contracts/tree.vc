@fn build_tree(tokens,events) tags=C05,C07,C08
requires: derives(tokens@, events@, root_kind(tokens@, events@))
ensures[C05,C08]: r.kind == root_kind(tokens@, events@), shape(r, tokens@, 0), size(r) == tokens@.len()
entry: let ghost toks = tokens@; let ghost evs = events@; let ghost n = events@.len() - 1; proof { reveal(closing); reveal(fold); reveal(rel); assert(evs.take(n) =~= evs.drop_last()); assert(evs.take(0) =~= Seq::empty()); }
loop 0
invariant: $all == evs.drop_last(), n == evs.len() - 1, n >= 0, tokens.all() == toks, tokens.wf(), tokens.done() == fold(toks, evs.take($it.done())).pos
invariant: derives(toks, evs, root_kind(toks, evs)), evs.take(n) == evs.drop_last()
invariant: rel(stack@, fold(toks, evs.take($it.done())).stk, toks, tokens.done())
lentry: proof { lemma_arms(toks, evs, $it.done() - 1, stack@); }
lafter: proof { lemma_root(toks, evs, stack@); }

@fn Tree::new(kind) tags=C05,C07
ensures: r.kind == kind, r.children@.len() == 0

@fn Tree::push(self,child) tags=C05,C07
ensures: final(self).kind == old(self).kind, final(self).children@ == old(self).children@.push(child)

@fn Tree::len(self) tags=C05,C07
ensures: r == self.children@.len()

@fn Tree::start(self) tags=C07,C13,C18
requires: full(*self)
ensures: *r == first_leaf(*self)
decreases: *self
entry: proof { reveal(full); reveal(first_leaf); reveal(last_leaf); reveal(has_kind); }

@fn Tree::end(self) tags=C07,C13,C18
requires: full(*self)
ensures: *r == last_leaf(*self)
decreases: *self
entry: proof { reveal(full); reveal(first_leaf); reveal(last_leaf); reveal(has_kind); }

@fn Tree::is_multiline(self) tags=C07,C13,C18
requires: full(*self)
ensures: r == multi(*self)

@fn Tree::contains(self,kind) tags=C07,C18
ensures: r == has_kind(*self, kind)
decreases: *self
entry: proof { reveal(full); reveal(first_leaf); reveal(last_leaf); reveal(has_kind); }
loop 0
invariant: $all == refs(self.children@)
invariant_except_break: !contains && forall|i: int| 0 <= i < $it.done() ==> match #[trigger] self.children@[i] { Child::Token(_) => true, Child::Tree(c) => !(c.kind == kind || has_kind(c, kind)) }
lensures: !contains && !has_kind(*self, kind)
lentry: assert(*$x == self.children@[$it.done() - 1]);

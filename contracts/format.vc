@fn Formatter::new(comments) tags=C07,C08,C09,C10,C11,C12,C13,C18
ensures: r.comments.all() == comments@, r.comments.done() == 0, r.comments.wf(), r.markers@.len() == 0, r.prev_tok == ModelicaToken::EOF, r.prev_line == 1

@fn Formatter::comments_before(self,tok) tags=C07,C08,C09,C10,C11,C12,C13,C18
requires: old(self).inv(), old(self).at() < source().len(), *tok == source()[old(self).at()]
ensures: final(self).markers == old(self).markers, final(self).prev_tok == old(self).prev_tok, final(self).prev_line == old(self).prev_line
ensures: final(self).comments.wf(), final(self).comments.all() == notes(), final(self).comments.done() == skip(old(self).w().j, tok.idx as int)
ensures: r.0@ + r.1@ == notes().subrange(old(self).w().j, skip(old(self).w().j, tok.idx as int))
ensures: forall|i: int| 0 <= i < r.0@.len() ==> (#[trigger] r.0@[i]).start.line == old(self).prev_line
ensures: forall|i: int| 0 <= i < r.1@.len() ==> (#[trigger] r.1@[i]).start.line != old(self).prev_line
entry: let ghost j0 = self.w().j; let ghost x0 = tok.idx as int; let ghost at0 = self.at();
loop 0
invariant: self.comments.wf() && self.comments.all() == notes() && j0 <= self.comments.done()
invariant: self.markers == old(self).markers, self.prev_tok == old(self).prev_tok, self.prev_line == old(self).prev_line
invariant: skip(self.comments.done(), x0) == skip(j0, x0)
invariant: inlines@ + comments@ =~= notes().subrange(j0, self.comments.done())
invariant: forall|i: int| 0 <= i < inlines@.len() ==> (#[trigger] inlines@[i]).start.line == self.prev_line
invariant: forall|i: int| 0 <= i < comments@.len() ==> (#[trigger] comments@[i]).start.line > self.prev_line
lensures: self.comments.done() == skip(j0, x0)
ldecreases: notes().len() - self.comments.done()
invariant: at0 > 0 && self.comments.done() < notes().len() ==> notes()[self.comments.done()].idx > source()[at0 - 1].idx
invariant: self.comments.done() == j0 + inlines@.len() + comments@.len()
lentry: proof { let j = j0 + inlines@.len() + comments@.len(); let c = inlines@ + comments@; if comments@.len() > 0 { assert(c.last() == comments@.last()); assert(notes().subrange(j0, j).last() == notes()[j - 1]); if at0 > 0 { assert(j > j0); lemma_mono(at0, j0, j - 1); } } lemma_note_lines(at0, j, comments@); }

@fn Formatter::handle_token(self,tok) tags=C07,C08,C09,C10,C11,C12,C13,C18
requires: old(self).inv(), old(self).at() < source().len()
requires[C08]: tok == source()[old(self).at()]
requires[C10]: order_ok(old(self).w())
requires[C12]: horiz_ok(old(self).w())
requires[C13,C18]: vert_ok(old(self).w())
requires[C11]: level_ok(old(self).w())
requires[C09]: join_ok(old(self).w())
ensures: final(self).inv(), final(self).at() == old(self).at() + 1, final(self).lv() == old(self).lv(), fresh(final(self).w())
ensures[C08]: old(self).good8() ==> final(self).good8()
ensures[C09]: old(self).good9() ==> final(self).good9()
ensures[C10]: old(self).good10() ==> final(self).good10()
ensures[C11]: old(self).good11() ==> final(self).good11()
ensures[C12]: old(self).good12() ==> final(self).good12()
ensures[C13,C18]: old(self).good13() ==> final(self).good13()
entry: broadcast use lemma_weave; proof { lemma_token(self.at()); lemma_skip(self.w().j, tok.idx as int); lemma_place(self.at(), self.w().j); }

@fn Formatter::break_or_space(self,is_multiline,tok) tags=C07,C08,C09,C10,C11,C12,C13,C18
requires: old(self).inv(), 0 < old(self).at() < source().len(), *tok == source()[old(self).at()], fresh(old(self).w())
requires[C12,C13,C18]: wanted(old(self).at()).gap == wrap(is_multiline)
requires[C11]: wanted(old(self).at()).lv is None
ensures: final(self).inv(), final(self).at() == old(self).at(), final(self).lv() == old(self).lv()
ensures[C10]: order_ok(final(self).w()), old(self).good10() ==> final(self).good10()
ensures[C12]: horiz_ok(final(self).w()), final(self).good12() == old(self).good12()
ensures[C13,C18]: vert_ok(final(self).w()), old(self).good13() ==> final(self).good13()
ensures[C11]: level_ok(final(self).w()), final(self).good11() == old(self).good11()
ensures[C09]: join_ok(final(self).w()), old(self).good9() ==> final(self).good9()
ensures[C08]: old(self).good8() ==> final(self).good8()
entry: broadcast use lemma_weave;

@fn Formatter::handle_break(self,tok,blanks) tags=C07,C08,C09,C10,C11,C12,C13,C18
requires: old(self).inv(), old(self).at() < source().len(), *tok == source()[old(self).at()], fresh(old(self).w())
requires: old(self).at() > 0 || (old(self).markers@.len() == 0 && source()[0].idx > 0 && !(blanks is Required))
requires[C12,C13,C18]: gap_of(blanks) == wanted(old(self).at()).gap
ensures: final(self).inv(), final(self).at() == old(self).at(), final(self).lv() == old(self).lv(), final(self).w().ind == old(self).lv()
ensures[C10]: order_ok(final(self).w()), old(self).good10() ==> final(self).good10()
ensures[C12]: horiz_ok(final(self).w()), final(self).good12() == old(self).good12()
ensures[C13,C18]: vert_ok(final(self).w()), old(self).good13() ==> final(self).good13()
ensures[C11]: final(self).good11() == old(self).good11()
ensures[C09]: join_ok(final(self).w()), old(self).good9() ==> final(self).good9()
ensures[C08]: old(self).good8() ==> final(self).good8()
attr: #[verifier::rlimit(100)]
entry: broadcast use lemma_weave; let ghost i0 = self.at(); let ghost j0 = self.w().j; let ghost g0 = *self; let ghost x0 = tok.idx as int; proof { lemma_token(i0); lemma_skip(j0, x0); lemma_place(i0, j0); if i0 == 0 { lemma_first_note(0); } } let ghost e0 = skip(j0, x0); let ghost mut in0 = Seq::<Token>::empty(); let ghost mut out0 = Seq::<Token>::empty(); let ghost mut c1 = self.comments;
loop 0
invariant: self.comments == c1, self.prev_tok == g0.prev_tok, self.prev_line == g0.prev_line, $all == in0, in0 + out0 == notes().subrange(j0, e0)
invariant: self.w().i == i0, self.w().j == j0 + $it.done(), self.w().lv == g0.w().lv, self.w().ind == g0.w().ind, self.w().sep is No, self.w().lead is No
invariant: self.w().any == ($it.done() > 0), self.w().lc == ($it.done() > 0 && notes()[self.w().j - 1].kind == ModelicaToken::LineComment), line == last_line(self.w())
invariant: (self.markers@.len() == 0) == (i0 == 0 && $it.done() == 0), self.w().horiz == g0.w().horiz, self.w().level == g0.w().level
invariant[C08]: g0.good8() ==> self.good8()
invariant[C09]: g0.good9() ==> self.good9()
invariant[C10]: g0.good10() ==> self.good10()
invariant[C13,C18]: g0.good13() ==> self.good13()
lbefore: proof { in0 = $all; out0 = comments@; c1 = self.comments; }
lentry: proof { let j = self.w().j; assert((in0 + out0).len() == e0 - j0); assert((in0 + out0)[j - j0] == in0[j - j0]); assert(notes().subrange(j0, e0)[j - j0] == notes()[j]); lemma_mono(i0, j0, j); lemma_note(i0, j); if j > j0 { lemma_mono(i0, j0, j - 1); lemma_note(i0, j - 1); } }
loop 1
invariant: self.comments == c1, self.prev_tok == g0.prev_tok, self.prev_line == g0.prev_line, $all == out0, in0 + out0 == notes().subrange(j0, e0)
invariant: self.w().i == i0, self.w().j == j0 + in0.len() + $it.done(), self.w().lv == g0.w().lv
invariant: self.w().any == (self.w().j > j0), self.w().lc == (self.w().j > j0 && notes()[self.w().j - 1].kind == ModelicaToken::LineComment), line == last_line(self.w())
invariant: after_comment == ($it.done() > 0)
invariant: i0 == 0 || (if $it.done() == 0 { self.w().lead is No } else { self.w().lead is Break || self.w().lead is Blank })
invariant: if blanks is Required && $it.done() == 0 { self.w().sep is Blank && self.w().ind == g0.w().lv } else { self.w().sep is No }
invariant: (self.markers@.len() == 0) == (i0 == 0 && self.w().j == j0), self.w().horiz == g0.w().horiz, self.w().level == g0.w().level
invariant[C08]: g0.good8() ==> self.good8()
invariant[C09]: g0.good9() ==> self.good9()
invariant[C10]: g0.good10() ==> self.good10()
invariant[C13,C18]: g0.good13() ==> self.good13()
lentry: proof { let j = self.w().j; assert((in0 + out0).len() == e0 - j0); assert((in0 + out0)[j - j0] == out0[j - j0 - in0.len()]); assert(notes().subrange(j0, e0)[j - j0] == notes()[j]); lemma_mono(i0, j0, j); lemma_note(i0, j); if j > j0 { lemma_mono(i0, j0, j - 1); lemma_note(i0, j - 1); } }
lafter: proof { let j = self.w().j; assert((in0 + out0).len() == e0 - j0); if j > j0 { lemma_mono(i0, j0, j - 1); lemma_note(i0, j - 1); } assert(self.comments.done() == j); assert(placed(self.w())); assert(self.prev_tok == prev_kind(i0)); assert(self.prev_line == prev_line(i0)); assert(self.w().lv >= 0); assert(self.comments.wf() && self.comments.all() == notes()); }

@fn Formatter::remaining_comments(self) tags=C07,C08,C09,C10,C11,C12,C13,C18
requires: old(self).inv(), old(self).at() == source().len(), fresh(old(self).w()), old(self).at() == 0 ==> old(self).markers@.len() == 0
ensures: final(self).inv(), final(self).at() == old(self).at(), final(self).lv() == old(self).lv(), final(self).w().j == notes().len(), final(self).w().sep is No
ensures[C10]: old(self).good10() ==> final(self).good10()
ensures[C12]: final(self).good12() == old(self).good12()
ensures[C13,C18]: old(self).good13() ==> final(self).good13()
ensures[C11]: final(self).good11() == old(self).good11()
ensures[C09]: old(self).good9() ==> final(self).good9()
ensures[C08]: old(self).good8() ==> final(self).good8()
entry: broadcast use lemma_weave; let ghost i0 = self.at(); let ghost g0 = *self;
loop 0
invariant: self.comments.wf() && self.comments.all() == notes() && self.comments.done() == self.w().j, self.prev_tok == g0.prev_tok, self.prev_line == g0.prev_line, placed(self.w())
invariant: self.w().i == i0, self.w().lv == g0.w().lv, self.w().sep is No, line == last_line(self.w()), self.w().any ==> self.w().j > 0
invariant: self.w().lc ==> self.w().any && notes()[self.w().j - 1].kind == ModelicaToken::LineComment, self.w().any && i0 > 0 ==> notes()[self.w().j - 1].idx > source()[i0 - 1].idx
invariant: (self.markers@.len() == 0) == (i0 == 0 && !self.w().any), self.markers@.len() == 0 ==> self.w() == w0(), self.w().horiz == g0.w().horiz, self.w().level == g0.w().level
invariant[C08]: g0.good8() ==> self.good8()
invariant[C09]: g0.good9() ==> self.good9()
invariant[C10]: g0.good10() ==> self.good10()
invariant[C13,C18]: g0.good13() ==> self.good13()
lensures: !self.comments.more()
ldecreases: notes().len() - self.comments.done()
lentry: proof { let j = self.w().j; lemma_note(i0, j); if self.w().any { lemma_note(i0, j - 1); } }

@fn format(tree,comments) tags=C07,C08,C09,C10,C11,C12,C13,C18
requires: tree.kind == SyntaxKind::StoredDefinition, shape(tree, source(), 0), size(tree) == source().len(), tree == the_tree(), comments@ == notes(), read_ok(source(), notes())
ensures: weave(r@).i == source().len(), weave(r@).j == notes().len()
ensures[C11]: weave(r@).lv == 0, weave(r@).level
ensures[C08]: weave(r@).words
ensures[C09]: weave(r@).join, weave(r@).sep is No
ensures[C10]: weave(r@).order
ensures[C12]: weave(r@).horiz
ensures[C13,C18]: weave(r@).vert
entry: proof { reveal(weave); reveal(read_ok); assert(want_first(tree) && wants(tree, 0, 0, false)) by { reveal(want); lemma_wants(tree, 0, 0, false); } }

@fn print(markers) tags=C14
requires: ind_ok(markers@)
ensures: r@ == text_after(markers@, markers@.len() as int)
entry: proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(markers.len() == markers@.len()); }
loop 0
invariant: markers@.len() <= usize::MAX
invariant: $all == markers@, ind_ok(markers@)
invariant: printer.indent == ind_after(markers@, $it.done())
invariant: joined(__c1@, Seq::empty()) == text_after(markers@, $it.done())
lentry: proof { lemma_ind_bound(markers@, $it.done()); lemma_ind_bound(markers@, $it.done() - 1); assert(joined(__c1@, Seq::empty()) =~= joined(__c1@, Seq::empty()) + Seq::<char>::empty()); assert forall|x: String| joined(__c1@.push(x), Seq::empty()) == joined(__c1@, Seq::empty()) + x@ by { lemma_joined_push(__c1@, x); } assert(ind_after(markers@, $it.done()) >= 0); }

@fn Printer::new() tags=C14
ensures: r.indent == 0

@fn Printer::print_marker(self,m) tags=C14
requires: sp_ind(m, old(self).indent as int) >= 0
requires: old(self).indent < usize::MAX
ensures: final(self).indent == sp_ind(m, old(self).indent as int)
ensures: r matches Some(t) ==> t@ == sp_text(m, old(self).indent as int)
ensures: r is None ==> sp_text(m, old(self).indent as int).len() == 0
entry: proof { reveal_strlit(" "); reveal_strlit("  "); reveal_strlit("\n"); }
loop 0
invariant: 0 <= $i <= $n, $n == self.indent
invariant: self.indent == old(self).indent
invariant: m is Break || m is Blank
invariant: out@ == (if m is Blank { seq!['\n', '\n'] } else { seq!['\n'] }) + rep2($i as int)
lentry: proof { reveal_strlit("  "); }

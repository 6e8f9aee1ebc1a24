@fn lex(name,source) tags=C01,C02,C03
ensures[C01]: holds(source@, name@, items(source@, 0), r.0@, r.1@, r.2@)
ensures[C02]: kinds_hold(source@, name@, items(source@, 0), r.0@, r.1@, r.2@)
ensures[C03]: positions_hold(source@, name@, items(source@, 0), r.0@, r.1@, r.2@)
ensures[C06,C01]: lexed(r.0@, r.1@)
entry: proof { lemma_items_kinds(source@, 0); assert forall|t: Seq<Token>, c: Seq<Token>, e: Seq<String>| #[trigger] holds(source@, name@, items(source@, 0), t, c, e) && kinds_hold(source@, name@, items(source@, 0), t, c, e) implies lexed(t, c) by { lemma_lexed(source@, name@, items(source@, 0), t, c, e); } }

@fn Lexer::new(name,source) tags=C01,C02,C03
entry: proof { lemma_idx(source@, 0); }
ensures: r.between(), !r.at_eof, r.i() == 0, r.s() == source@, r.name@ == name@
ensures: r.tokens@.len() == 0, r.comments@.len() == 0, r.errors@.len() == 0, r.count == 0

@fn Lexer::tokenize(self) tags=C01,C02,C03
requires: old(self).between(), !old(self).at_eof, old(self).i() == 0, old(self).tokens@.len() == 0, old(self).comments@.len() == 0, old(self).errors@.len() == 0, old(self).count == 0
ensures: final(self).s() == old(self).s(), final(self).name@ == old(self).name@
ensures[C01]: final(self).inv_text(items(old(self).s(), 0))
ensures[C02]: final(self).inv_kind(items(old(self).s(), 0))
ensures[C03]: final(self).inv_pos(items(old(self).s(), 0))
entry: let ghost mut __l: Seq<Item> = Seq::empty(); proof { assert(__l + items(self.s(), 0) =~= items(self.s(), 0)); }
loop 0
invariant: self.between(), self.s() == old(self).s(), self.name@ == old(self).name@
invariant: __l + items(self.s(), self.i()) == items(self.s(), 0)
invariant: self.at_eof ==> self.i() == self.s().len()
invariant[C01]: self.inv_text(__l)
invariant[C02]: self.inv_kind(__l)
invariant[C03]: self.inv_pos(__l)
ldecreases: self.s().len() - self.i() + (if self.at_eof { 0int } else { 1int })
lentry: let ghost __p = *self; proof { lemma_items_step(self.s(), self.i()); lemma_ws_end(self.s(), self.i()); if ws_end(self.s(), self.i()) < self.s().len() { lemma_scan(self.s(), ws_end(self.s(), self.i())); } }
lexit: proof { let j = ws_end(__p.s(), __p.i()); if j < __p.s().len() { let x = Item { start: j, end: scan(__p.s(), j).end, kind: scan(__p.s(), j).kind }; lemma_push_last(__l, x); assert(__l.push(x) + items(self.s(), self.i()) =~= __l + items(__p.s(), __p.i())); __l = __l.push(x); } else { lemma_items_step(self.s(), self.i()); lemma_ws_end(self.s(), self.i()); } }
lafter: proof { lemma_items_step(self.s(), self.i()); assert(__l + items(self.s(), self.i()) =~= __l); }

@fn Lexer::peek(self) tags=C01,C02,C03
requires: old(self).wf()
ensures: *final(self) == *old(self)
ensures: old(self).i() < old(self).s().len() ==> r == Some(old(self).s()[old(self).i()])
ensures: old(self).i() >= old(self).s().len() ==> r is None

@fn Lexer::next(self) tags=C01,C03
requires: old(self).wf()
ensures[C01]: final(self).same_out(old(self)), final(self).start == old(self).start, final(self).wf()
ensures[C03]: is_pos(final(self).s(), final(self).i(), final(self).current)
ensures[C01]: old(self).i() < old(self).s().len() ==> r == Some(old(self).s()[old(self).i()]) && final(self).i() == old(self).i() + 1 && final(self).at_eof == old(self).at_eof
ensures[C01]: old(self).i() >= old(self).s().len() ==> r is None && final(self).i() == old(self).i() && final(self).at_eof
entry: proof { lemma_pos_bound(self.s(), self.i()); if self.i() < self.s().len() { lemma_pos_bound(self.s(), self.i() + 1); lemma_idx(self.s(), self.i() + 1); } }

@fn Lexer::jump(self) tags=C01,C03
ensures: final(self).start == old(self).current, final(self).current == old(self).current, final(self).chars == old(self).chars
ensures: final(self).same_out(old(self)), final(self).at_eof == old(self).at_eof

@fn Lexer::generate_token(self,kind) tags=C01,C02,C03
requires: old(self).scanning()
ensures[C01]: final(self).between(), final(self).i() == old(self).i(), final(self).at_eof == old(self).at_eof
ensures[C01]: final(self).appended(old(self), Some(kind))
ensures[C01]: final(self).text_ok(old(self).st(), final(self).i(), Some(kind), old(self).count as int)
ensures[C02]: final(self).kind_ok(Some(kind))
ensures[C03]: final(self).pos_ok(old(self).st(), final(self).i(), Some(kind))
entry: proof { broadcast use lemma_bp_inj; assert(bp(self.s(), self.st()) == self.start.pos); assert(bp(self.s(), self.i()) == self.current.pos); lemma_push_last_all(); lemma_pos_bound(self.s(), self.i()); }

@fn Lexer::generate_error(self,msg) tags=C01,C02,C03
requires: old(self).scanning()
ensures[C01]: final(self).between(), final(self).i() == old(self).i(), final(self).at_eof == old(self).at_eof
ensures[C01,C02]: final(self).appended(old(self), None)
ensures[C03]: final(self).errors@.last()@ == err_text(old(self).name@, old(self).start.line as nat, old(self).start.col as nat, msg@)
ensures[C03]: final(self).pos_ok(old(self).st(), final(self).i(), None)
entry: proof { lemma_push_last_all(); reveal_strlit(":"); reveal_strlit(": "); assert(":"@ =~= seq![':']); assert(": "@ =~= seq![':', ' ']); lemma_pos_bound(self.s(), self.st()); assert(self.start.line as nat == line_at(self.s(), self.st()) as nat); assert(self.start.col as nat == col_at(self.s(), self.st()) as nat); assert forall|m: Seq<char>| is_err(#[trigger] err_text(self.name@, self.start.line as nat, self.start.col as nat, m), self.name@, line_at(self.s(), self.st()), col_at(self.s(), self.st())) by { lemma_is_err(self.name@, self.start.line as nat, self.start.col as nat, m); } assert(Seq::<char>::empty() + self.name@ =~= self.name@); assert(err_text(self.name@, self.start.line as nat, self.start.col as nat, msg@) == self.name@ + seq![':'] + dec(self.start.line as nat) + seq![':'] + dec(self.start.col as nat) + seq![':', ' '] + msg@); }

@fn Lexer::accept(self,s) tags=C01,C02
requires: old(self).wf()
ensures: final(self).moved(old(self), if r { old(self).i() + 1 } else { old(self).i() }), final(self).at_eof == old(self).at_eof
ensures: r == (old(self).i() < old(self).s().len() && s@.contains(old(self).s()[old(self).i()]))
entry: proof { lemma_pos_bound(self.s(), self.i()); }

@fn Lexer::accept_digits(self) tags=C01,C02
requires: old(self).wf()
ensures: final(self).i() >= old(self).i(), final(self).moved(old(self), digits_end(old(self).s(), old(self).i())), final(self).at_eof == old(self).at_eof
loop 0
invariant: self.moved(old(self), self.i()), self.i() >= old(self).i(), self.at_eof == old(self).at_eof
invariant: digits_end(self.s(), self.i()) == digits_end(old(self).s(), old(self).i())
lensures: self.i() == digits_end(self.s(), self.i())
ldecreases: self.s().len() - self.i()

@fn Lexer::lex_source(self) tags=C01,C02
requires: old(self).between(), !old(self).at_eof
ensures[C01]: final(self).between(), final(self).s() == old(self).s(), final(self).name@ == old(self).name@
ensures[C01]: ws_end(old(self).s(), old(self).i()) >= old(self).s().len() ==> final(self).same_out(old(self)) && final(self).at_eof
ensures[C01,C02]: ws_end(old(self).s(), old(self).i()) < old(self).s().len() ==> final(self).i() == scan(old(self).s(), ws_end(old(self).s(), old(self).i())).end && final(self).appended(old(self), scan(old(self).s(), ws_end(old(self).s(), old(self).i())).kind)
ensures[C01]: ws_end(old(self).s(), old(self).i()) < old(self).s().len() ==> final(self).text_ok(ws_end(old(self).s(), old(self).i()), final(self).i(), scan(old(self).s(), ws_end(old(self).s(), old(self).i())).kind, old(self).count as int)
ensures[C02]: ws_end(old(self).s(), old(self).i()) < old(self).s().len() ==> final(self).kind_ok(scan(old(self).s(), ws_end(old(self).s(), old(self).i())).kind)
ensures[C03]: ws_end(old(self).s(), old(self).i()) < old(self).s().len() ==> final(self).pos_ok(ws_end(old(self).s(), old(self).i()), final(self).i(), scan(old(self).s(), ws_end(old(self).s(), old(self).i())).kind)
decreases: old(self).s().len() - old(self).i(), 1int
entry: proof { lemma_ws_end(self.s(), self.i()); }

@fn Lexer::lex_space(self) tags=C01,C02
requires: old(self).wf(), old(self).count <= old(self).i(), !old(self).at_eof
ensures[C01]: final(self).between(), final(self).s() == old(self).s(), final(self).name@ == old(self).name@
ensures[C01]: ws_end(old(self).s(), old(self).i()) >= old(self).s().len() ==> final(self).same_out(old(self)) && final(self).at_eof
ensures[C01,C02]: ws_end(old(self).s(), old(self).i()) < old(self).s().len() ==> final(self).i() == scan(old(self).s(), ws_end(old(self).s(), old(self).i())).end && final(self).appended(old(self), scan(old(self).s(), ws_end(old(self).s(), old(self).i())).kind)
ensures[C01]: ws_end(old(self).s(), old(self).i()) < old(self).s().len() ==> final(self).text_ok(ws_end(old(self).s(), old(self).i()), final(self).i(), scan(old(self).s(), ws_end(old(self).s(), old(self).i())).kind, old(self).count as int)
ensures[C02]: ws_end(old(self).s(), old(self).i()) < old(self).s().len() ==> final(self).kind_ok(scan(old(self).s(), ws_end(old(self).s(), old(self).i())).kind)
ensures[C03]: ws_end(old(self).s(), old(self).i()) < old(self).s().len() ==> final(self).pos_ok(ws_end(old(self).s(), old(self).i()), final(self).i(), scan(old(self).s(), ws_end(old(self).s(), old(self).i())).kind)
decreases: old(self).s().len() - old(self).i(), 2int
loop 0
invariant: self.moved(old(self), self.i()), self.i() >= old(self).i(), !self.at_eof
invariant: ws_end(self.s(), self.i()) == ws_end(old(self).s(), old(self).i())
lensures: self.i() == ws_end(self.s(), self.i())
ldecreases: self.s().len() - self.i()

@fn Lexer::lex_colon(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == ':'
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
entry: proof { lemma_lits(); }

@fn Lexer::lex_equal(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == '='
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
entry: proof { lemma_lits(); }

@fn Lexer::lex_lesser(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == '<'
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
entry: proof { lemma_lits(); }

@fn Lexer::lex_greater(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == '>'
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
entry: proof { lemma_lits(); }

@fn Lexer::lex_dot(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == '.'
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
entry: proof { lemma_lits(); }

@fn Lexer::lex_string(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == '"'
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
loop 0
invariant: self.moved(old(self), self.i()), self.i() >= old(self).i()
lentry: proof { assert(scan_string(self.s(), self.s().len() as int) == bad(self.s().len() as int)); assert(scan_string(self.s(), (self.s().len() + 1) as int) == bad(self.s().len() as int)); }
invariant: scan_string(self.s(), self.i()) == scan_string(old(self).s(), old(self).i())
lensures: self.i() == self.s().len()
ldecreases: self.s().len() - self.i()

@fn Lexer::lex_qident(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == '\''
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
entry: proof { reveal_strlit("!#$%&()*+,-./:;<>=?@[]^{}|~ \""); lemma_q(); }
loop 0
invariant: self.moved(old(self), self.i()), self.i() >= old(self).i()
lentry: proof { assert(scan_qident(self.s(), self.s().len() as int) == bad(self.s().len() as int)); assert(scan_qident(self.s(), (self.s().len() + 1) as int) == bad(self.s().len() as int)); }
invariant: scan_qident(self.s(), self.i()) == scan_qident(old(self).s(), old(self).i())
lensures: self.i() == self.s().len()
ldecreases: self.s().len() - self.i()

@fn Lexer::lex_slash(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == '/'
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)

@fn Lexer::lex_linecomment(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == '/', at(old(self).s(), old(self).i(), '/')
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
entry: proof { assert(line_end(self.s(), self.i()) == line_end(self.s(), self.i() + 1)); }
loop 0
invariant: self.moved(old(self), self.i()), self.i() >= old(self).i()
invariant: line_end(self.s(), self.i()) == line_end(old(self).s(), old(self).i())
lensures: self.i() == self.s().len()
ldecreases: self.s().len() - self.i()

@fn Lexer::lex_blockcomment(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, old(self).s()[old(self).i() - 1] == '/', at(old(self).s(), old(self).i(), '*')
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
loop 0
invariant: self.moved(old(self), self.i()), self.i() > old(self).i()
lentry: proof { assert(scan_block(self.s(), self.s().len() as int) == bad(self.s().len() as int)); assert(scan_block(self.s(), (self.s().len() + 1) as int) == bad(self.s().len() as int)); }
invariant: scan_block(self.s(), self.i()) == scan_block(old(self).s(), old(self).i() + 1)
lensures: self.i() == self.s().len()
ldecreases: self.s().len() - self.i()

@fn Lexer::lex_numeral(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, is_digit(old(self).s()[old(self).i() - 1])
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
entry: proof { lemma_lits(); let s = self.s(); let i = self.i(); lemma_pos_bound(s, i); }

@fn Lexer::lex_nondigit(self) tags=C01,C02
requires: old(self).scanning(), old(self).st() == old(self).i() - 1, is_alpha(old(self).s()[old(self).i() - 1]) || old(self).s()[old(self).i() - 1] == '_'
ensures[C01,C02]: final(self).between(), final(self).i() == scan(old(self).s(), old(self).i() - 1).end
ensures[C01,C02]: final(self).appended(old(self), scan(old(self).s(), old(self).i() - 1).kind)
ensures[C01]: final(self).text_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind, old(self).count as int)
ensures[C02]: final(self).kind_ok(scan(old(self).s(), old(self).i() - 1).kind)
ensures[C03]: final(self).pos_ok(old(self).i() - 1, final(self).i(), scan(old(self).s(), old(self).i() - 1).kind)
loop 0
invariant: self.moved(old(self), self.i()), self.i() >= old(self).i()
invariant: name_end(self.s(), self.i()) == name_end(old(self).s(), old(self).i() - 1)
lensures: self.i() == name_end(self.s(), self.i())
ldecreases: self.s().len() - self.i()

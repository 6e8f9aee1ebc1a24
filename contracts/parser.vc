@fn events(name,tokens,start) tags=C04,C05,C06,C03
requires: real_tokens(tokens@), start != SyntaxKind::Error, !is_operator(start)
ensures[C05,C06]: closing(tokens@, r.0@, Stk::Bot(Seq::empty()), 0, start)
ensures[C05]: r.1@.len() == 0 ==> derives(tokens@, r.0@, start)
ensures[C05,C04]: r.1@.len() == 0 ==> fold(tokens@, r.0@) == (St { ok: true, pos: tokens@.len() as int, stk: grown(Stk::Bot(Seq::empty()), start, tokens@.len() > 0) })
ensures[C04]: start == SyntaxKind::StoredDefinition && rec(start, 0, tokens@, 0) == Some(tokens@.len() as int) ==> r.1@.len() == 0
ensures[C03]: errs_ok(r.1@, name@, tokens@)
entry: proof { axiom_tokens_size(tokens); reveal(core); }

@fn Parser::parse(self,start) tags=C04,C05,C06,C03
requires: old(self).inv(), old(self).pos == 0, old(self).lifes == 100, old(self).errors@.len() == 0, start != SyntaxKind::Error, !is_operator(start)
ensures[C04,C05,C06]: final(self).same_input(old(self)), final(self).inv()
ensures[C05]: final(self).stk() == grown(old(self).stk(), start, final(self).pos > 0)
ensures[C05,C06]: closing(final(self).tokens@, final(self).events@, old(self).stk(), old(self).events@.len() as int, start)
ensures[C04]: final(self).errors@.len() == 0 ==> final(self).pos == final(self).tokens@.len()
ensures[C04]: start == SyntaxKind::StoredDefinition && old(self).can(start, 0) == Some(old(self).tokens@.len() as int) ==> final(self).errors@.len() == 0

@fn Parser::new(name,tokens) tags=C04,C05,C06,C03
requires: real_tokens(tokens@), tokens@.len() < isize::MAX
ensures: r.inv(), r.pos == 0, r.lifes == 100, r.tokens == tokens, r.name == name, r.errors@.len() == 0, r.events@.len() == 0, r.stk() == Stk::Bot(Seq::empty())
entry: proof { reveal(fold); reveal(errs_ok); reveal(core); }

@fn Parser::enter(self) tags=C05,C06
requires: old(self).inv()
ensures: final(self).inv(), final(self).same_input(old(self)), final(self).pos == old(self).pos, final(self).errors == old(self).errors, final(self).lifes == old(self).lifes
ensures: r == old(self).events@.len(), final(self).events@.len() == old(self).events@.len() + 1
ensures: final(self).within(old(self)), final(self).kids() == Seq::<Sym>::empty()
entry: proof { reveal(core); lemma_fold_push(self.tokens@, self.events@, SyntaxEvent::Enter(SyntaxKind::Error)); }

@fn Parser::exit(self,m,typ) tags=C04,C05,C06
requires[C05,C06]: old(self).inv(), old(self).stk() is On, old(self).stk()->at == m
requires[C04,C05]: old(self).errors@.len() == 0 ==> fin(typ, run(typ, old(self).kids()))
ensures: final(self).inv(), final(self).same_input(old(self)), final(self).pos == old(self).pos, final(self).errors == old(self).errors, final(self).lifes == old(self).lifes
ensures: final(self).stk() == grown(*(old(self).stk()->below), typ, old(self).kids().len() > 0)
ensures: final(self).events@.len() == old(self).events@.len() + 1
ensures[C05]: closing(final(self).tokens@, final(self).events@, *(old(self).stk()->below), m as int, typ)
entry: proof { reveal(core); reveal(closing); assert forall|e: SyntaxEvent| (#[trigger] self.events@.update(m as int, SyntaxEvent::Enter(typ)).push(e)).drop_last() == self.events@.update(m as int, SyntaxEvent::Enter(typ)) by { assert(self.events@.update(m as int, SyntaxEvent::Enter(typ)).push(e).drop_last() =~= self.events@.update(m as int, SyntaxEvent::Enter(typ))); } lemma_rename(self.tokens@, self.events@, m as int, typ); lemma_fold_push(self.tokens@, self.events@.update(m as int, SyntaxEvent::Enter(typ)), SyntaxEvent::Exit); }

@fn Parser::advance(self) tags=C05,C06
requires: old(self).inv(), old(self).pos < old(self).tokens@.len()
ensures: final(self).inv(), final(self).took(old(self)), final(self).events@.len() > old(self).events@.len()
entry: proof { reveal(core); lemma_fold_push(self.tokens@, self.events@, SyntaxEvent::Advance); }

@fn Parser::eof(self) tags=C04,C06
requires: old(self).pos <= old(self).tokens@.len()
ensures: r == (old(self).pos == old(self).tokens@.len() || old(self).lifes == 0)
ensures: *final(self) == *old(self)

@fn Parser::nth(self,n) tags=C04,C06
requires: old(self).pos <= old(self).tokens@.len() < isize::MAX, n < 100
ensures: final(self).looked(old(self), 1)
ensures: r == (if old(self).lifes == 0 { ModelicaToken::EOF } else { old(self).tk(n as int) })

@fn Parser::check(self,typ) tags=C04,C06
requires: old(self).inv()
ensures: final(self).looked(old(self), 1)
ensures: r == ((if old(self).lifes == 0 { ModelicaToken::EOF } else { old(self).tk(0) }) == typ)

@fn Parser::check_any(self,typ) tags=C04,C06
requires: old(self).inv()
ensures: final(self).looked(old(self), 1)
ensures: r == any_of(typ@, if old(self).lifes == 0 { ModelicaToken::EOF } else { old(self).tk(0) })
entry: proof { reveal(any_of); }

@fn Parser::consume(self,typ) tags=C04,C05,C06
requires: old(self).inv(), typ != ModelicaToken::EOF
ensures: final(self).inv()
ensures: r == (old(self).lifes > 0 && old(self).tk(0) == typ)
ensures: r ==> final(self).took(old(self))
ensures: !r ==> final(self).looked(old(self), 1)

@fn Parser::error(self,msg) tags=C03,C06
requires: old(self).inv()
ensures: final(self).inv(), final(self).same_input(old(self)), final(self).pos == old(self).pos, final(self).events == old(self).events, final(self).lifes == old(self).lifes
ensures: final(self).errors@.len() == old(self).errors@.len() + 1
ensures[C03]: err_at(final(self).errors@.last()@, old(self).name@, old(self).tokens@, old(self).pos as int)
entry: proof { reveal(core); reveal_strlit(":"); reveal_strlit(": "); assert(":"@ =~= seq![':']); assert(": "@ =~= seq![':', ' ']); assert(Seq::<char>::empty() + self.name@ =~= self.name@); lemma_is_err(self.name@, 1, 1, msg@); assert(err_text(self.name@, 1, 1, msg@) == self.name@ + ":"@ + dec(1) + ":"@ + dec(1) + ": "@ + msg@); if self.tokens@.len() > 0 { let t = if self.pos < self.tokens@.len() { self.tokens@[self.pos as int] } else { self.tokens@.last() }; lemma_is_err(self.name@, t.start.line as nat, t.start.col as nat, msg@); assert(err_text(self.name@, t.start.line as nat, t.start.col as nat, msg@) == self.name@ + ":"@ + dec(t.start.line as nat) + ":"@ + dec(t.start.col as nat) + ": "@ + msg@); } assert forall|x: String| err_at(x@, self.name@, self.tokens@, self.pos as int) implies errs_ok(#[trigger] self.errors@.push(x), self.name@, self.tokens@) by { lemma_errs_push(self.errors@, x, self.name@, self.tokens@, self.pos as int); } }

@fn Parser::advance_with_error(self,msg) tags=C04,C05,C06
requires: old(self).inv()
ensures: final(self).inv(), final(self).grew(old(self)), final(self).errors@.len() > old(self).errors@.len()
ensures: final(self).pos == old(self).pos ==> final(self).stk() == old(self).stk() && (old(self).pos == old(self).tokens@.len() || old(self).lifes == 0)
ensures: final(self).pos > old(self).pos ==> final(self).stk() == add(old(self).stk(), Sym::N(SyntaxKind::Error))

@fn Parser::expect(self,typ) tags=C04,C05,C06
requires: old(self).inv(), typ != ModelicaToken::EOF
ensures: final(self).inv()
ensures: old(self).lifes > 0 && old(self).tk(0) == typ ==> final(self).took(old(self))
ensures: !(old(self).lifes > 0 && old(self).tk(0) == typ) ==> final(self).same_input(old(self)) && final(self).pos == old(self).pos && final(self).events == old(self).events && final(self).errors@.len() == old(self).errors@.len() + 1 && final(self).lifes <= old(self).lifes && (old(self).lifes > 0 ==> final(self).lifes < old(self).lifes)

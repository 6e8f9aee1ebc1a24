@fn parse(name,source,entry) tags=C01,C02,C03,C04,C05,C06
requires: entry != SyntaxKind::Error, !is_operator(entry)
ensures[C01]: text_read(name@, source@, r.tokens@, r.comments@, r.errors@)
ensures[C02]: kinds_read(name@, source@, r.tokens@, r.comments@, r.errors@)
ensures[C03]: positions_read(name@, source@, r.tokens@, r.comments@, r.errors@)
ensures[C01,C08]: lexed(r.tokens@, r.comments@)
ensures[C04]: entry == SyntaxKind::StoredDefinition && rec(entry, 0, r.tokens@, 0) == Some(r.tokens@.len() as int) && clean(items(source@, 0)) ==> r.errors@.len() == 0
ensures[C05]: r.errors@.len() == 0 ==> derives(r.tokens@, r.events@, entry)
ensures[C04,C05,C07]: closing(r.tokens@, r.events@, Stk::Bot(Seq::empty()), 0, entry)
entry: proof { assert forall|t: Seq<Token>, c: Seq<Token>, a: Seq<String>| #![trigger lexed(t, c), a.len()] clean(items(source@, 0)) && holds(source@, name@, items(source@, 0), t, c, a) implies a.len() == 0 by { lemma_clean(source@, name@, items(source@, 0), t, c, a); } assert forall|t: Seq<Token>, c: Seq<Token>, a: Seq<String>, b: Seq<String>| #![trigger lexed(t, c), a + b] holds(source@, name@, items(source@, 0), t, c, a) implies text_read(name@, source@, t, c, a + b) by { lemma_bad(source@, name@, items(source@, 0), t, c, a); assert((a + b).skip(a.len() as int) =~= b); assert((a + b).take(a.len() as int) =~= a); } assert forall|t: Seq<Token>, c: Seq<Token>, a: Seq<String>, b: Seq<String>| #![trigger lexed(t, c), a + b] holds(source@, name@, items(source@, 0), t, c, a) && kinds_hold(source@, name@, items(source@, 0), t, c, a) implies kinds_read(name@, source@, t, c, a + b) by { lemma_bad(source@, name@, items(source@, 0), t, c, a); assert((a + b).skip(a.len() as int) =~= b); assert((a + b).take(a.len() as int) =~= a); } assert forall|t: Seq<Token>, c: Seq<Token>, a: Seq<String>, b: Seq<String>| #![trigger lexed(t, c), a + b] holds(source@, name@, items(source@, 0), t, c, a) && positions_hold(source@, name@, items(source@, 0), t, c, a) && errs_ok(b, name@, t) implies positions_read(name@, source@, t, c, a + b) by { lemma_bad(source@, name@, items(source@, 0), t, c, a); assert((a + b).skip(a.len() as int) =~= b); assert((a + b).take(a.len() as int) =~= a); } }

@fn pretty_print(tokens,comments,events) tags=C07,C08,C09,C10,C11,C12,C13,C14,C18
requires: derives(tokens@, events@, SyntaxKind::StoredDefinition), read_ok(tokens@, comments@), spelled(tokens@, comments@)
requires: tokens@ == source(), comments@ == notes(), the_tree() == built(tokens@, events@)
ensures[C07,C14]: exists|m: Seq<Marker>| r@ == #[trigger] text_after(m, m.len() as int) && laid_out(m)
ensures[C08,C09]: exists|m: Seq<Marker>| r@ == #[trigger] text_after(m, m.len() as int) && laid_out(m) && rereads(r@, m)
entry: proof { reveal(closing); assert(root_kind(tokens@, events@) == SyntaxKind::StoredDefinition); assert forall|m: Seq<Marker>| (#[trigger] weave(m)).level implies ind_ok(m) by { lemma_ind_ok(m); } assert forall|m: Seq<Marker>| #![trigger weave(m)] laid_out(m) && shape(the_tree(), source(), 0) && size(the_tree()) == source().len() implies rereads(text_after(m, m.len() as int), m) by { theorem_reread(m); } }

// The command line driver: what it may do to files, and the exit code.
@fn main(w) tags=C15,C16
requires: old(w).log().len() == 0
requires: old(w).args().len() >= 1
ensures[C16]: all_read(final(w).args(), final(w).log())
ensures[C15]: all_written(final(w).args(), final(w).log())
ensures[C15]: right_code(final(w).args(), final(w).log(), 0)
entry: proof { reveal_strlit("-h"); reveal_strlit("--help"); reveal_strlit("-v"); reveal_strlit("--version"); reveal_strlit("--check"); lemma_words(); reveal(settled); }
hint_after: let\s+args\b[^;]*; =>> proof { lemma_args(args@, w.args()); }

@fn format_files(w,args,check) tags=C15,C16
requires: old(w).log().len() == 0
requires: usage(old(w).args()) == Some((check, texts(args@)))
ensures: false
entry: broadcast use {group_paths, group_log}; proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); lemma_start(check); assert(old(w).log() =~= seq![]); }
loop 0
invariant: pathseq(files@) == selected(texts(args@), $it.done())
invariant: $all == refs(args@)
invariant: *w == *old(w)
lentry: proof { assert(texts(args@)[$it.done() - 1] == args@[$it.done() - 1]@); }
loop 1
invariant: $all == refs(files@), w.args() == old(w).args()
invariant: pathseq(files@) == chosen(w.args())
invariant[C16]: reads(w.log()) == mo_of(pathseq(files@), $it.done())
invariant[C15]: code == 0 <==> (all_mo(pathseq(files@), $it.done()) && clean(w.log(), check))
invariant[C15]: !check ==> settled(w.log())
lentry: proof { assert(pathseq(files@)[$it.done() - 1] == files@[$it.done() - 1]@); lemma_all_mo(pathseq(files@), $it.done() - 1); }

@fn get_files_from_dir(w,dir) tags=C16
ensures: *final(w) == *old(w)
ensures: pathseq(r@) == in_dir(dir@, entries(dir@).len() as int)
decreases: height(dir@)
entry: broadcast use group_paths;
loop 0
invariant: lists($all, dir@), *w == *old(w)
invariant: pathseq(files@) == in_dir(dir@, $it.done())
lentry: proof { let d = $it.done(); assert($all[d - 1] is Ok ==> entries(dir@)[d - 1] == Some(($all[d - 1]->Ok_0).at())); }

@fn is_modelica(f) tags=C16
ensures: r == is_mo(f@)
entry: proof { reveal_strlit("mo"); assert("mo"@ =~= seq!['m', 'o']); }

@fn read_file(w,from) tags=C15,C16
ensures: final(w).args() == old(w).args()
ensures[C16]: !is_mo(from@) ==> r is Err && final(w).log() == old(w).log()
ensures[C15,C16]: is_mo(from@) ==> final(w).log() == old(w).log().push(Ev::Read(from@, match r { Ok(s) => Some(s@), Err(_) => None }))

@fn write_file(w,to,code) tags=C15
requires: may_write(old(w).args(), old(w).log(), to@, code@)
ensures: final(w).args() == old(w).args()
ensures: final(w).log() == old(w).log().push(Ev::Write(to@, code@, true))

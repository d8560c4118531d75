//@ONLY C15
== fn check_content -> r
ensures r is Ok <==> t_valid(abs(*node)),
-- start
    proof { lemma_t_valid(*node); lemma_cm_lang(ty(*node), tys(kids(*node))); }
== fn paragraph -> r
requires wf_all(content@),
ensures abs(r) == p_node(abs_all(content@)), wf_node(r),
== fn item_content -> r
requires wf_all(content@),
ensures abs_all(r@) == item_kids(abs_all(content@)), wf_all(r@),
-- start
    proof { lemma_wf_all(content@); lemma_abs_all(content@); assert(content@.take(content@.len() as int) =~= content@); assert(wf_all(Seq::<MarkdownNode>::empty())); assert(abs_all(Seq::<MarkdownNode>::empty()) =~= Seq::<T>::empty()); }
-- loop 1
invariant
    seq1@ == content@, idx1 <= content@.len(),
    forall|i: int| 0 <= i < content@.len() ==> wf_node(#[trigger] content@[i]),
    wf_all(blocks@), wf_all(inline@),
    runs(abs_all(content@.take(idx1 as int))) == (abs_all(blocks@), abs_all(inline@)),
    abs_all(Seq::<MarkdownNode>::empty()) == Seq::<T>::empty(), wf_all(Seq::<MarkdownNode>::empty()),
decreases content@.len() - idx1,
-- loopstart 1
    let ghost b0 = blocks@;
    let ghost i0 = inline@;
    proof {
        let n = content@[idx1 as int];
        assert(content@.take(idx1 + 1) =~= content@.take(idx1 as int).push(n));
        lemma_abs_push(content@.take(idx1 as int), n); lemma_abs_ty(n);
        assert(abs_all(content@.take(idx1 + 1)).drop_last() =~= abs_all(content@.take(idx1 as int)));
        lemma_abs_all(inline@); lemma_abs_all(blocks@);
        assert forall|s: Seq<MarkdownNode>, m: MarkdownNode| wf_all(s) && wf_node(m) implies #[trigger] wf_all(s.push(m)) by { assert(s.push(m).drop_last() =~= s); }
        assert forall|s: Seq<MarkdownNode>, m: MarkdownNode| #[trigger] abs_all(s.push(m)) == abs_all(s).push(abs(m)) by { lemma_abs_push(s, m); }
    }
-- afterloop 1
    proof {
        assert(content@.take(idx1 as int) =~= content@);
        lemma_abs_all(inline@); lemma_abs_all(blocks@);
        assert forall|s: Seq<MarkdownNode>, m: MarkdownNode| wf_all(s) && wf_node(m) implies #[trigger] wf_all(s.push(m)) by { assert(s.push(m).drop_last() =~= s); }
        assert forall|s: Seq<MarkdownNode>, m: MarkdownNode| #[trigger] abs_all(s.push(m)) == abs_all(s).push(abs(m)) by { lemma_abs_push(s, m); }
        assert forall|s: Seq<MarkdownNode>| s.len() > 0 implies #[trigger] t_ty(abs_all(s)[0]) == ty(s[0]) by { lemma_abs_all(s); lemma_abs_ty(s[0]); }
        assert forall|s: Seq<MarkdownNode>, m: MarkdownNode| #[trigger] abs_all(s.insert(0, m)) == abs_all(s).insert(0, abs(m)) && (wf_all(s) && wf_node(m) ==> wf_all(s.insert(0, m))) by {
            lemma_abs_all(s); lemma_abs_all(s.insert(0, m)); assert(abs_all(s.insert(0, m)) =~= abs_all(s).insert(0, abs(m)));
            lemma_wf_all(s); lemma_wf_all(s.insert(0, m));
        }
    }
== fn block_content -> r
requires wf_all(content_p@),
ensures abs_all(r@) == block_kids(abs_all(content_p@)), wf_all(r@),
-- start
    proof { lemma_abs_all(content_p@); assert(abs_all(Seq::<MarkdownNode>::empty()) =~= Seq::<T>::empty());
        assert forall|m: MarkdownNode| abs_all(#[trigger] content_p@.push(m)) == abs_all(content_p@).push(abs(m)) && (wf_all(content_p@) && wf_node(m) ==> wf_all(content_p@.push(m))) by { lemma_abs_push(content_p@, m); assert(content_p@.push(m).drop_last() =~= content_p@); }
    }
== fn MarkdownDeserializer::default -> r
ensures wf_d(r), r.stack@.len() == 0, r.mark_set.content@.len() == 0,
== fn MarkdownDeserializer::push_stack
ensures final(self).stack@ == old(self).stack@.push(final(self).stack@.last()), final(self).stack@.last().1 == attrs, final(self).stack@.last().0@ == Seq::<MarkdownNode>::empty(), final(self).mark_set == old(self).mark_set,
-- start
    proof { assert forall|v: Vec<MarkdownNode>| #[trigger] v@.len() == 0 implies v@ == Seq::<MarkdownNode>::empty() by { assert(v@ =~= Seq::<MarkdownNode>::empty()); } }
== fn MarkdownDeserializer::pop_stack -> r
ensures
    final(self).mark_set == old(self).mark_set,
    r is Err <==> old(self).stack@.len() == 0,
    r matches Ok(p) ==> p == old(self).stack@.last() && final(self).stack@ == old(self).stack@.drop_last(),
== fn MarkdownDeserializer::add_content -> r
requires wf_d(*old(self)), wf_node(node),
ensures
    r is Err <==> st_add(abs_st(*old(self)), abs(node)) is None,
    r is Ok ==> wf_d(*final(self)) && st_add(abs_st(*old(self)), abs(node)) == Some(abs_st(*final(self))),
-- start
    let ghost s0 = self.stack@;
    proof {
        lemma_abs_stack(s0);
        if s0.len() > 0 {
            assert(abs_stack(s0).last() == abs_frame(s0.last()));
            assert forall|n: MarkdownNode| wf_all(#[trigger] s0.last().0@.push(n)) == (wf_all(s0.last().0@) && wf_node(n)) && abs_all(s0.last().0@.push(n)) == abs_all(s0.last().0@).push(abs(n)) by { lemma_abs_push(s0.last().0@, n); assert(s0.last().0@.push(n).drop_last() =~= s0.last().0@); }
        }
    }
== fn MarkdownDeserializer::add_text -> r
requires wf_d(*old(self)), sorted_marks(marks.content@),
ensures
    r is Err <==> st_text(abs_st(*old(self)), text@, marks.content@) is None,
    r is Ok ==> wf_d(*final(self)) && st_text(abs_st(*old(self)), text@, marks.content@) == Some(abs_st(*final(self))),
-- start
    let ghost s0 = self.stack@;
    proof {
        lemma_abs_stack(s0);
        if s0.len() > 0 {
            assert(abs_stack(s0).last() == abs_frame(s0.last()));
            assert forall|n: MarkdownNode| wf_all(#[trigger] s0.last().0@.push(n)) == (wf_all(s0.last().0@) && wf_node(n)) && abs_all(s0.last().0@.push(n)) == abs_all(s0.last().0@).push(abs(n)) by { lemma_abs_push(s0.last().0@, n); assert(s0.last().0@.push(n).drop_last() =~= s0.last().0@); }
        }
    }
== fn MarkdownDeserializer::deserialize -> r
requires wf_d(*old(self)), old(self).stack@.len() == 0, old(self).mark_set.content@.len() == 0,
ensures
    r is Err <==> built(parser.events()) is None,
    r matches Ok(d) ==> wf_node(d) && built(parser.events()) == Some(abs(d)),
-- start
    hide(st_add); hide(st_text); hide(t_valid); hide(block_kids); hide(item_kids); hide(code_kids); hide(flat); hide(abs_all); hide(madd); hide(mrem); hide(line_cut); hide(u16len); hide(wf_all);
    proof { lemma_abs_stack(self.stack@); lemma_code_facts(); }
-- beforeloop 1
    proof {
        assert(self.stack@.last().0@ =~= Seq::<MarkdownNode>::empty());
        assert(abs_stack(self.stack@) =~= st_init().stack); assert(self.mark_set.content@ =~= Seq::<MarkdownMark>::empty());
        assert(evs_of(seq1@).skip(0) =~= evs_of(seq1@));
    }
-- loop 1
invariant
    wf_d(*self),
    evs_of(seq1@) == parser.events(), idx1 <= seq1@.len(),
    feed_all(st_init(), evs_of(seq1@)) == feed_all(abs_st(*self), evs_of(seq1@).skip(idx1 as int)),
decreases seq1@.len() - idx1,
-- loopstart 1
    let ghost st0 = abs_st(*self);
    proof {
        broadcast use axiom_str_of;
        lemma_feed_step(st0, seq1@, idx1 as int); lemma_abs_stack(self.stack@); lemma_abs_stack(self.stack@.drop_last()); lemma_code_facts();
    }
-- loopend 1
    proof { assert(feed(st0, ev_of(seq1@[idx1 - 1])) == Some(abs_st(*self))); }
-- afterloop 1
    proof { assert(evs_of(seq1@).skip(idx1 as int) =~= Seq::<EvS>::empty()); lemma_abs_stack(self.stack@); }
-- loop 2
invariant
    !all_text(abs_all(content@)) ==> built(parser.events()) is None,
    seq2@ == content@, idx2 <= seq2@.len(),
    forall|i: int| 0 <= i < idx2 ==> is_text(#[trigger] content@[i]),
    a0.src == attrs.src && a0.title == attrs.title && attrs.alt@ == a0.alt@ + alt_text(abs_all(content@.take(idx2 as int))),
decreases seq2@.len() - idx2,
-- loopstart 2
    proof {
        let n = content@[idx2 as int];
        assert(content@.take(idx2 + 1) =~= content@.take(idx2 as int).push(n));
        lemma_abs_push(content@.take(idx2 as int), n); lemma_abs_ty(n); lemma_abs_all(content@); lemma_code_facts();
        assert(abs_all(content@)[idx2 as int] == abs(n));
        assert(abs_all(content@.take(idx2 + 1)).drop_last() =~= abs_all(content@.take(idx2 as int)));
    }
-- afterloop 2
    proof {
        broadcast use axiom_str_of;
        assert(content@.take(idx2 as int) =~= content@); lemma_abs_all(content@);
        assert forall|i: int| 0 <= i < content@.len() implies (#[trigger] abs_all(content@)[i]) is Text by { lemma_abs_ty(content@[i]); }
    }
-- beforeloop 2
    let ghost a0 = attrs;
    proof { assert(content@.take(0) =~= Seq::<MarkdownNode>::empty()); assert(a0.alt@ + Seq::<char>::empty() =~= a0.alt@); }
-- after /let \(mut content, attrs\)/
    let ghost c0 = content@;
-- before /self\.add_content\(cb\)/
    proof {
        let c1 = kids(cb);
        if c0.len() == 0 || !is_text(c0.last()) { assert(c1 == c0); assert(abs_all(c0) == code_kids(abs_all(c0))); }
        else if c1.len() == c0.len() {
            assert(c1 == c0.update(c0.len() - 1, c1.last()));
            assert(is_text(c1.last()));
            assert(text_of(c1.last()).text.content@ == line_cut(text_of(c0.last()).text.content@));
            assert(text_of(c1.last()).text.content@.len() > 0);
            assert(abs_all(c1) == code_kids(abs_all(c0)));
        } else { assert(c1 == c0.update(c0.len() - 1, c0.last()).drop_last()); assert(abs_all(c1) == code_kids(abs_all(c0))); }
    }
== fn from_markdown -> r
ensures
    r is Err <==> built(md_events(text@)) is None,
    r matches Ok(d) ==> wf_node(d) && built(md_events(text@)) == Some(abs(d)),
    r matches Ok(d) ==> t_ok(abs(d)) && ty(d) is Doc,
-- start
    proof {
        assert forall|n: MarkdownNode| t_ty(#[trigger] abs(n)) == ty(n) by { lemma_abs_ty(n); }
        if built(md_events(text@)) is Some { lemma_import_valid(md_events(text@)); }
    }
//@END

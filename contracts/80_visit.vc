//@ONLY C13
#! traversal
== fn Fragment::nodes_between
requires
    wf_frag(*self), node_start + self.size <= usize::MAX,
    forall|x: (MarkdownNode, int)| #[trigger] visits(self.inner@, node_start as int, node_start + from, node_start + to).contains(x) ==> old(f).pre(x.0, x.1),
ensures
    walk(self.inner@, node_start as int, node_start + from, node_start + to, *old(f), *final(f)),
    forall|m: MarkdownNode, q: int| #[trigger] final(f).pre(m, q) == old(f).pre(m, q),
decreases self,
-- start
        hide(flat); hide(toks); hide(wf_node); hide(wf_all); hide(walk); hide(walk_node); hide(visits); hide(visits_node);
        let ghost s = self.inner@;
        let ghost f0 = *f;
        let ghost p0 = node_start as int;
        let ghost (a0, b0) = (node_start + from, node_start + to);
        proof {
            axiom_fits(self.inner); lemma_wf_all(s); lemma_empty();
            assert(s.take(0) =~= Seq::<MarkdownNode>::empty());
            assert(walk(s.take(0), p0, a0, b0, f0, f0)) by { reveal(walk); }
        }
-- loop 1
invariant_except_break
    pos == flat(s.take(idx1 as int)).len(),
invariant
    s == self.inner@, seq1@ == s, idx1 <= s.len(), wf_frag(*self), p0 == node_start, a0 == node_start + from, b0 == node_start + to, f0 == *old(f),
    flat(s).len() <= isize::MAX - 2, node_start + self.size <= usize::MAX,
    forall|i: int| 0 <= i < s.len() ==> wf_node(#[trigger] s[i]),
    forall|x: (MarkdownNode, int)| #[trigger] visits(s, p0, a0, b0).contains(x) ==> f0.pre(x.0, x.1),
    forall|m: MarkdownNode, q: int| #[trigger] f.pre(m, q) == f0.pre(m, q),
    walk(s.take(idx1 as int), p0, a0, b0, f0, *f),
ensures
    p0 + flat(s.take(idx1 as int)).len() >= b0 || idx1 == s.len(),
decreases s.len() - idx1,
-- loopstart 1
                let ghost i = idx1 as int;
                let ghost fb = *f;
                let ghost pn = p0 + pos;
                proof {
                    lemma_flat_at(s, i); lemma_flat_take(s, i); lemma_wf_nonempty(s[i]); lemma_toks_cont(s[i]); lemma_wf_cont(s[i]); lemma_wf_kids(s[i]); axiom_node_fits(s[i]);
                    lemma_flat_mono(s, i + 1, s.len() as int); assert(s.take(s.len() as int) =~= s);
                    if hits(s[i], pn, a0, b0) {
                        lemma_visits_kids(s[i], pn, a0, b0, (s[i], pn));
                        lemma_visits_in(s, i, p0, a0, b0, (s[i], pn));
                    }
                    let ks = kids(s[i]);
                    assert forall|p2: int, a2: int, b2: int, x: (MarkdownNode, int)|
                        hits(s[i], pn, a0, b0) && p2 == pn + 1 && a2 == (if a0 > p2 { a0 } else { p2 }) && b2 == (if b0 < p2 + flat(ks).len() { b0 } else { p2 + flat(ks).len() })
                        && #[trigger] visits(ks, p2, a2, b2).contains(x) implies f0.pre(x.0, x.1) by {
                        lemma_visits_clip(ks, p2, a2, b2, a0, b0);
                        assert(ks.len() > 0) by { reveal(visits); }
                        lemma_visits_kids(s[i], pn, a0, b0, x);
                        lemma_visits_in(s, i, p0, a0, b0, x);
                    }
                    // no call
                    if !hits(s[i], pn, a0, b0) {
                        assert(walk_node(s[i], pn, a0, b0, fb, fb)) by { reveal(walk_node); }
                        lemma_walk_push(s, i, p0, a0, b0, f0, fb, fb);
                    }
                    // a call answered with no, or on a node without content
                    assert forall|r: bool, m: F| hits(s[i], pn, a0, b0) && #[trigger] fb.rel(s[i], pn, r, m) && !(r && ks.len() > 0) implies walk(s.take(i + 1), p0, a0, b0, f0, m) by {
                        assert(walk_node(s[i], pn, a0, b0, fb, m)) by { reveal(walk_node); }
                        lemma_walk_push(s, i, p0, a0, b0, f0, fb, m);
                    }
                    // a call answered with yes
                    assert forall|p2: int, a2: int, b2: int, m: F, e: F|
                        #![trigger fb.rel(s[i], pn, true, m), walk(ks, p2, a2, b2, m, e)]
                        hits(s[i], pn, a0, b0) && fb.rel(s[i], pn, true, m)
                        && p2 == pn + 1 && a2 == (if a0 > p2 { a0 } else { p2 }) && b2 == (if b0 < p2 + flat(ks).len() { b0 } else { p2 + flat(ks).len() })
                        && walk(ks, p2, a2, b2, m, e) implies walk(s.take(i + 1), p0, a0, b0, f0, e) by {
                        lemma_walk_clip(ks, p2, a2, b2, a0, b0, m, e);
                        lemma_walk_yes(s[i], pn, a0, b0, fb, m, e);
                        lemma_walk_push(s, i, p0, a0, b0, f0, fb, e);
                    }
                }
-- afterloop 1
        proof { lemma_walk_rest(s, idx1 as int, p0, a0, b0, f0, *f); }
== fn Fragment::text_between::visit1 -> r
requires wf_node(*node), old(self).pre(*node, pos as int),
ensures
    old(self).rel(*node, pos as int, r, *final(self)),
    forall|m: MarkdownNode, q: int| #[trigger] final(self).pre(m, q) == old(self).pre(m, q),
-- start
        hide(toks); hide(wf_node); hide(bnd); hide(units); hide(u16len); hide(clip);
        proof {
            lemma_wf_cont(*node); lemma_toks_cont(*node); axiom_node_fits(*node);
            if is_text(*node) { lemma_tb_text(*node, pos as int, self.from as int, self.to as int); axiom_str_fits(text_of(*node).text.content); }
            reveal_strlit("");
            assert(""@ =~= Seq::<char>::empty());
            assert(self.text@ + Seq::<char>::empty() =~= self.text@);
        }
== fn Fragment::text_between
requires wf_frag(*self), from <= to, bnd(flat(self.inner@), from as int), bnd(flat(self.inner@), to as int),
ensures
    final(text)@ == tb_fold(tb_enter(self.inner@, from as int, (old(text)@, separated_p), ostr(block_separator)), clip(flat(self.inner@), 0, from as int, to as int), ostr(block_separator), ostr(leaf_text)).0,
-- start
        hide(flat); hide(toks); hide(wf_node); hide(wf_all); hide(walk); hide(visits); hide(clip);
        proof {
            axiom_fits(self.inner);
            let s = self.inner@;
            let (a, b) = (from as int, to as int);
            let st = (old(text)@, separated_p);
            lemma_tb(s, a, b, st, ostr(block_separator), ostr(leaf_text));
            assert forall|c: VClo_text_between_1, m: MarkdownNode, q: int| c.from == from && c.to == to && visits(s, 0, a, b).contains((m, q)) implies #[trigger] c.pre(m, q) by { lemma_visits_pre(s, 0, a, b, (m, q)); }
            assert forall|c: VClo_text_between_1, d: VClo_text_between_1| c.from == from && c.to == to && #[trigger] walk(s, 0, a, b, c, d) implies
                tb_st(d) == tb_visits(visits(s, 0, a, b), a, b, tb_st(c), ostr(c.block_separator), ostr(c.leaf_text)) && tb_same(c, d) by { lemma_walk_text(s, 0, c, d); }
        }
== fn MarkdownNode::text_content -> r
requires wf_node(*self),
ensures r@ == chars_in(toks(*self)),
-- start
        hide(flat); hide(toks); hide(wf_node); hide(chars_in); hide(units);
        proof {
            lemma_toks_cont(*self); lemma_wf_cont(*self); lemma_chars_node(*self);
            reveal_strlit("");
            assert(""@ =~= Seq::<char>::empty());
        }
//@END

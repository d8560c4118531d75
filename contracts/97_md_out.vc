//@ONLY C15
== fn mark_tag -> r
requires !(*mark is Code),
ensures tag_of(r) == mark_tg(*mark),
== fn MarkdownSerializer::new -> r
ensures r.ok(), r.rem() == doc_evs(abs(*doc)),
-- start
proof {
    lemma_out_facts();
    let e = Seq::<(&MarkdownNode, usize)>::empty();
    let n = Seq::<MarkdownMark>::empty();
    lemma_ain(e);
    lemma_dm(Seq::<&MarkdownMark>::empty());
    lemma_rems_push(ain(e), (abs(*doc), 0), n);
    lemma_evn0(abs(*doc), n);
    assert(rems(ain(e), evt(abs(*doc), n).1) == Seq::<EvS>::empty());
    assert(forall|s: Seq<(&MarkdownNode, usize)>| s.len() == 1 && #[trigger] s[0] == (doc, 0usize) ==> s =~= e.push((doc, 0usize)));
}
== fn MarkdownSerializer::process_content -> r
requires content.inner@ == kids(*node),
ensures
    final(self).marks == old(self).marks, final(self).stack == old(self).stack,
    r <==> index >= kids(*node).len(),
    r ==> final(self).inner@ == old(self).inner@,
    !r ==> index < usize::MAX && final(self).inner@ == old(self).inner@.push((node, (index + 1) as usize)).push((&kids(*node)[index as int], 0)),
-- start
proof { assert(content.inner.len() == content.inner@.len()); }
== fn MarkdownSerializer::process_attr_node -> r
requires
    content.inner@ == kids(*node), old(self).ok(), old(self).stack@.len() == 0,
    !is_text(*node), tagged(head(*node)), index == 1 ==> alt_evs(head(*node)).len() == 0,
    map.requires((attrs,)),
    forall|o: Tag<'a>| map.ensures((attrs,), o) ==> #[trigger] tag_of(o) == head_tg(head(*node)),
ensures
    final(self).ok(),
    stepped(rems(old(self).todo().push((abs(*node), index as int)), old(self).open()), r, final(self).rem()),
decreases old(self).work() + wn((abs(*node), index as int)), 0nat,
-- start
hide(abs); hide(evt); hide(evk); hide(rems); hide(wi); hide(wk);
proof {
    lemma_out_facts();
    lemma_dm(self.marks@);
    lemma_abs_ty(*node);
    lemma_abs_all(kids(*node));
    lemma_at(self.todo(), abs(*node), index as int, self.open());
    assert(content.inner.len() == content.inner@.len());
}
== fn MarkdownSerializer::next -> r
-- attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
-- subst /&\(((?!self\b)\w+\.marks)\)\[\.\.\]/ => (\1).into_iter()
requires old(self).ok(),
ensures
    final(self).ok(),
    stepped(old(self).rem(), r, final(self).rem()),
decreases old(self).work(), 1nat,
-- start
hide(abs); hide(abs_all); hide(toks); hide(flat); hide(wf_node); hide(wf_all); hide(evt); hide(evk); hide(rems); hide(evs_rev); hide(wi); hide(wk); hide(wt); hide(ain); hide(dm); hide(all_in); hide(kept); hide(mopens); hide(mcloses); hide(evn);
proof {
    lemma_next_facts(self.stack@, rems(self.todo(), self.open()));
    lemma_dm(self.marks@);
    lemma_ain(self.inner@);
    assert(rems(Seq::<(T, int)>::empty(), self.open()) == Seq::<EvS>::empty()) by { reveal(rems); }
    if self.inner@.len() > 0 {
        let node = *self.inner@.last().0;
        let i = self.inner@.last().1 as int;
        lemma_abs_ty(node);
        lemma_abs_all(kids(node));
        lemma_at(ain(self.inner@.drop_last()), abs(node), i, self.open());
        if is_text(node) {
            assert(abs(node) == T::Text(text_of(node).text.content@, text_of(node).marks.content@)) by { reveal(abs); }
            lemma_text_close(ain(self.inner@.drop_last()), text_of(node).text.content@, text_of(node).marks.content@, i, self.open());
        }
    }
}
-- loop 1
invariant_except_break
    acc_1 == acc0_1,
    forall|j: int| 0 <= j < idx1 ==> text_node.marks.content@.contains(*#[trigger] seq1@[j]),
invariant
    idx1 <= seq1.len(),
ensures
    acc_1 != acc0_1 ==> exists|j: int| 0 <= j < seq1@.len() && !text_node.marks.content@.contains(*#[trigger] seq1@[j]),
    acc_1 == acc0_1 ==> forall|j: int| 0 <= j < seq1@.len() ==> text_node.marks.content@.contains(*#[trigger] seq1@[j]),
decreases seq1.len() - idx1,
-- afterloop 1
proof {
    lemma_all_in(self.marks@, text_node.marks.content@);
    assert(seq1@ == self.marks@);
    assert((acc_1 != acc0_1) == !all_in(self.open(), text_node.marks.content@));
}
-- loop 2
invariant
    idx2 <= seq2.len(), seq2@ == text_node.marks.content@,
    self.ok(), self.stack@.len() == 0, abs(*node) == T::Text(text_node.text.content@, text_node.marks.content@),
    text_ready(old(self).rem(), self.todo(), text_node.text.content@, seq2@, index as int, self.open()),
    forall|j: int| 0 <= j < idx2 ==> is_open(#[trigger] seq2@[j], self.open()),
    is_code ==> seq2@.contains(MarkdownMark::Code),
    !is_code ==> forall|j: int| 0 <= j < idx2 ==> #[trigger] seq2@[j] != MarkdownMark::Code,
decreases seq2.len() - idx2,
-- loopstart 2
proof {
    lemma_next_facts(self.stack@, Seq::<EvS>::empty());
    lemma_dm(self.marks@);
    lemma_text_open(old(self).rem(), self.todo(), text_node.text.content@, seq2@, index as int, self.open(), idx2 as int);
}
-- loopend 2
proof {
    let m = seq2@[idx2 - 1];
    if !(m is Code) { assert(self.marks@.contains(&m)); assert(self.open().contains(m)); }
    assert(is_open(m, self.open()));
}
-- afterloop 2
proof { lemma_text_done(old(self).rem(), self.todo(), text_node.text.content@, text_node.marks.content@, index as int, self.open()); }
-- closure 1 (attrs: &'a HeadingAttrs) -> (o: Tag<'a>)
ensures tag_of(o) == TagS::Heading(attrs.level as u32),
-- closure 2 (attrs: &'a CodeBlockAttrs) -> (o: Tag<'a>)
ensures tag_of(o) == TagS::CodeBlock(Some(attrs.params@)),
-- closure 3 (u: &'a ()) -> (o: Tag<'a>)
ensures tag_of(o) == TagS::BlockQuote,
-- closure 4 (u: &'a ()) -> (o: Tag<'a>)
ensures tag_of(o) == TagS::Paragraph,
-- closure 5 (u: &'a BulletListAttrs) -> (o: Tag<'a>)
ensures tag_of(o) == TagS::List(None),
-- closure 6 (u: &'a OrderedListAttrs) -> (o: Tag<'a>)
ensures tag_of(o) == TagS::List(Some(attrs.order as u64)),
-- closure 7 (u: &'a ()) -> (o: Tag<'a>)
ensures tag_of(o) == TagS::Item,
-- closure 8 (u: &'a ()) -> (o: Tag<'a>)
ensures tag_of(o) == TagS::Image(attrs.src@, attrs.title@),
== fn to_markdown -> r
requires toks(*doc).len() + 128 <= isize::MAX, wf_node(*doc),
ensures r matches Ok(s) ==> s@ == md_text(doc_evs(abs(*doc))),
//@END

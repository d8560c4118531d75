#! ---------------------------------------------------------------- util
== fn EitherOrBoth::left -> r
ensures match *self { EitherOrBoth::Both(a, _) => r == Some(&a), EitherOrBoth::Left(a) => r == Some(&a), EitherOrBoth::Right(_) => r is None },
== fn EitherOrBoth::right -> r
ensures match *self { EitherOrBoth::Both(_, b) => r == Some(&b), EitherOrBoth::Left(a) => r is None, EitherOrBoth::Right(b) => r == Some(&b) },
== fn EitherOrBoth::right_or_left -> r
ensures match *self { EitherOrBoth::Both(_, b) => *r == b, EitherOrBoth::Left(a) => *r == a, EitherOrBoth::Right(b) => *r == b },
== fn then_some -> r
ensures r == if b { Some(v) } else { None },
== fn util_from -> r
ensures r == rfrom(*range),
== fn util_to -> r
ensures r == rto(*range, max as int),
== fn util_is_boundary_utf16 -> r
requires u16len(text@) <= usize::MAX,
ensures r == cbnd(text@, index as int),
-- beforeloop 1
        let ghost mut k: int = 0;
        proof { assert(text@.skip(0) =~= text@); }
-- loop 1
invariant_except_break
    vstd::std_specs::iter::IteratorSpec::remaining(&seq1) == text@.skip(k),
invariant
    0 <= k <= text@.len(),
    u16len(text@) <= usize::MAX,
    pos == u16len(text@.take(k)),
    forall|j: int| 0 <= j < k ==> u16len(#[trigger] text@.take(j)) < index,
ensures
    pos >= index || k == text@.len(),
decreases text@.len() - k,
-- before /pos \+= c.len_utf16/
                    proof {
                        lemma_u16_take(text@, k);
                        lemma_u16_mono(text@, k + 1, text@.len() as int);
                        assert(text@.take(text@.len() as int) =~= text@);
                        assert(text@.skip(k).skip(1) =~= text@.skip(k + 1));
                        k = k + 1;
                    }
-- afterloop 1
        proof {
            assert forall|j: int| 0 <= j <= text@.len() && #[trigger] u16len(text@.take(j)) == index implies pos == index by {
                if j >= k { lemma_u16_mono(text@, k, j); }
            }
        }
== fn util_split_at_utf16 -> r
requires
    u16len(text@) <= usize::MAX,
    index_p <= u16len(text@) ==> cbnd(text@, index_p as int),
ensures
    exists|k: int| 0 <= k <= text@.len() && #[trigger] text@.take(k) == r.0@ && r.1@ == text@.skip(k)
        && u16len(r.0@) == (if index_p <= u16len(text@) { index_p as nat } else { u16len(text@) }),
-- beforeloop 1
    let ghost mut k: int = 0;
    proof { assert(text@.skip(0) =~= text@); assert(text@.take(text@.len() as int) =~= text@); }
-- loop 1
invariant
    0 <= k <= text@.len(),
    vstd::std_specs::iter::IteratorSpec::remaining(&iter) == text@.skip(k),
    text@.take(text@.len() as int) == text@,
    index + u16len(text@.take(k)) == index_p,
    index_p <= u16len(text@) ==> cbnd(text@, index_p as int),
decreases text@.len() - k,
-- before /let l = c.len_utf16/
            proof {
                assert(text@.skip(k).skip(1) =~= text@.skip(k + 1));
                lemma_u16_take(text@, k);
                if index < c16(c) { lemma_inside(text@, k, index_p as int); }
                k = k + 1;
            }
-- before /return \(text, ""\)/
            proof { assert(k == text@.len()); assert(text@.skip(k) =~= Seq::<char>::empty()); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(text@.take(k) == text@); assert(text@.skip(k) == ""@); assert(u16len(text@) < index_p); }
-- before /let mid = /
    proof { lemma_split_mid(text@, k); if index_p > u16len(text@) { lemma_u16_mono(text@, k, text@.len() as int); } }
#! ---------------------------------------------------------------- marks
== fn MarkSet::default -> r
ensures r.content@ == Seq::<MarkdownMark>::empty(),
== fn MarkSet::contains -> r
ensures r == self.content@.contains(*mark),
== fn MarkSet::into_iter -> r
ensures r@ == self.content@,
== fn MarkSet::add
requires sorted_marks(old(self).content@),
ensures final(self).content@ == madd(old(self).content@, *mark), sorted_marks(final(self).content@),
-- start
        proof { lemma_madd_at(self.content@, *mark); }
== fn MarkSet::remove
requires sorted_marks(old(self).content@),
ensures final(self).content@ == mrem(old(self).content@, *mark), sorted_marks(final(self).content@),
-- start
        proof { lemma_mrem_at(self.content@, *mark); }
== fn MarkdownMark::type_ -> r
ensures r == mark_ty(*self),
== fn MarkdownMark::add_to_set -> r
requires sorted_marks(cow_val(set).content@),
ensures cow_val(r).content@ == madd(cow_val(set).content@, *self), sorted_marks(cow_val(r).content@),
-- start
        proof { lemma_madd_at(cow_val(set).content@, *self); }
== fn MarkdownMark::remove_from_set -> r
requires sorted_marks(cow_val(set).content@),
ensures cow_val(r).content@ == mrem(cow_val(set).content@, *self), sorted_marks(cow_val(r).content@),
-- start
        proof { lemma_mrem_at(cow_val(set).content@, *self); }
== fn MarkdownMark::into_set -> r
ensures r.content@ == seq![self], sorted_marks(r.content@),
#! ---------------------------------------------------------------- text
== fn Text::default -> r
ensures r.len_utf16 == 0, r.content@ == Seq::<char>::empty(),
== fn TextNode::default -> r
ensures r.text.len_utf16 == 0, r.text.content@ == Seq::<char>::empty(), r.marks.content@ == Seq::<MarkdownMark>::empty(),
== fn Text::as_str -> r
ensures r@ == self.content@,
== fn Text::len_utf16 -> r
ensures r == self.len_utf16,
== fn Text::join -> r
requires self.len_utf16 == u16len(self.content@), other.len_utf16 == u16len(other.content@),
ensures r.content@ == self.content@ + other.content@, r.len_utf16 == u16len(r.content@),
-- start
        proof { axiom_str_fits(self.content); axiom_str_fits(other.content); lemma_u16_concat(self.content@, other.content@); }
//@ONLY C15
== fn Text::remove_last_newline
requires old(self).len_utf16 == u16len(old(self).content@),
ensures
    final(self).len_utf16 == u16len(final(self).content@),
    final(self).content@ == line_cut(old(self).content@),
//@END
== fn Text::from@String -> r
ensures r.content@ == src@, r.len_utf16 == u16len(src@),
== fn TextNode::same_markup -> r
ensures r is Some ==> is_text(*other) && r == Some(&text_of(*other)) && text_of(*other).marks == self.marks,
    r is None ==> !(is_text(*other) && marks_of(*other) == self.marks.content@),
-- start
        proof { if is_text(*other) && marks_of(*other) == self.marks.content@ { axiom_same_marks(text_of(*other).marks.content, self.marks.content); } }
== fn TextNode::with_text -> r
ensures r.marks == self.marks, r.text == text,
#! ---------------------------------------------------------------- nodes
== fn Block::default -> r
ensures r.content.size == 0, r.content.inner@ == Seq::<MarkdownNode>::empty(),
== fn Block::copy -> r
requires map.requires((&self.content,)),
ensures map.ensures((&self.content,), r.content),
== fn AttrNode::copy -> r
requires map.requires((&self.content,)),
ensures map.ensures((&self.content,), r.content), call_ensures(A::clone, (&self.attrs,), r.attrs),
== fn MarkdownNode::from@TextNode -> r
ensures r == MarkdownNode::Text(text_node),
== fn MarkdownNode::text_node -> r
ensures r is Some <==> is_text(*self), is_text(*self) ==> r == Some(&text_of(*self)),
== fn MarkdownNode::new_text_node -> r
ensures r == MarkdownNode::Text(node),
== fn MarkdownNode::is_block -> r
ensures r == !is_inline_ty(ty(*self)),
== fn MarkdownNode::type_ -> r
ensures r == ty(*self),
== fn MarkdownNode::content -> r
ensures cont(*self) is Some <==> r is Some, cont(*self) matches Some(c) ==> r == Some(&c),
== fn MarkdownNode::marks -> r
ensures r is Some <==> is_text(*self), is_text(*self) ==> r == Some(&text_of(*self).marks),
== fn MarkdownNode::mark -> r
ensures is_text(*self) ==> r == MarkdownNode::Text(TextNode { marks: set, text: text_of(*self).text }),
    !is_text(*self) ==> r == *self,
== fn MarkdownNode::copy -> r
requires cont(*self) matches Some(c) ==> map.requires((&c,)),
ensures cont(*self) is None ==> r == *self,
    cont(*self) matches Some(c) ==> exists|c2: Fragment| #[trigger] map.ensures((&c,), c2) && r == with_content(*self, c2),
//@ONLY !C14
== fn MarkdownNode::node_size -> r
requires wf_node(*self),
ensures r == toks(*self).len(),
-- start
        proof { axiom_node_fits(*self); lemma_toks_cont(*self); lemma_wf_cont(*self); }
//@END
== fn MarkdownNode::content_size -> r
ensures r == csize(*self), wf_node(*self) ==> r == inner_toks(*self).len(),
-- start
        proof { lemma_wf_cont(*self); }
== fn MarkdownNode::child_count -> r
ensures r == kids(*self).len(),
== fn MarkdownNode::child -> r
requires cont(*self) is Some ==> index < kids(*self).len(),
ensures cont(*self) is Some <==> r is Some, r matches Some(c) ==> *c == kids(*self)[index as int],
== fn MarkdownNode::maybe_child -> r
ensures index < kids(*self).len() ==> r == Some(&kids(*self)[index as int]), index >= kids(*self).len() ==> r is None,
== fn MarkdownNode::first_child -> r
ensures kids(*self).len() > 0 ==> r == Some(&kids(*self)[0]), kids(*self).len() == 0 ==> r is None,
== fn MarkdownNode::is_inline -> r
ensures r == is_inline_ty(ty(*self)),
== fn MarkdownNode::is_text -> r
ensures r == is_text(*self),
== fn MarkdownNode::is_leaf -> r
ensures r == is_leaf(*self),
#! ---------------------------------------------------------------- fragments
== fn Fragment::EMPTY -> r
ensures r.inner@ == Seq::<MarkdownNode>::empty(), r.size == 0, wf_frag(r),
== fn Fragment::EMPTY_REF -> r
-- subst /&(Self::EMPTY\(\))/ => vstatic(\1)
ensures r.inner@ == Seq::<MarkdownNode>::empty(), r.size == 0, wf_frag(*r),
== fn Fragment::default -> r
ensures r.inner@ == Seq::<MarkdownNode>::empty(), r.size == 0, wf_frag(r),
== fn Fragment::new -> r
ensures r.inner@ == Seq::<MarkdownNode>::empty(), r.size == 0, wf_frag(r),
== fn Fragment::size -> r
ensures r == self.size,
== fn Fragment::children -> r
ensures r@ == self.inner@,
== fn Fragment::first_child -> r
ensures self.inner@.len() > 0 ==> r == Some(&self.inner@[0]), self.inner@.len() == 0 ==> r is None,
== fn Fragment::last_child -> r
ensures self.inner@.len() > 0 ==> r == Some(&self.inner@.last()), self.inner@.len() == 0 ==> r is None,
== fn Fragment::child_count -> r
ensures r == self.inner@.len(),
== fn Fragment::child -> r
requires index < self.inner@.len(),
ensures *r == self.inner@[index as int],
== fn Fragment::maybe_child -> r
ensures index < self.inner@.len() ==> r == Some(&self.inner@[index as int]), index >= self.inner@.len() ==> r is None,
//@ONLY !C14
== fn Fragment::from@Vec<MarkdownNode -> r
requires wf_all(src@),
ensures r.inner == src, wf_frag(r),
-- beforeloop 1
        proof { axiom_fits(src); lemma_wf_all(src@); assert(src@.take(src@.len() as int) =~= src@); }
-- loop 1
invariant
    seq1@ == src@, idx1 <= src@.len(), wf_all(src@),
    acc_1 == flat(src@.take(idx1 as int)).len(),
    flat(src@).len() <= isize::MAX,
    forall|i: int| 0 <= i < src@.len() ==> wf_node(#[trigger] src@[i]),
decreases src@.len() - idx1,
-- loopstart 1
                    proof { lemma_flat_take(src@, idx1 as int); lemma_flat_at(src@, idx1 as int); }
//@END
== fn Fragment::from@(MarkdownNode,) -> r
requires wf_node(arg0.0),
ensures r.inner@ == seq![arg0.0], wf_frag(r),
-- start
        proof { lemma_wf_all(seq![arg0.0]); }
== fn Index::new -> r
ensures r.index == index, r.offset == offset,
== fn Slice::default -> r
ensures r.content.inner@ == Seq::<MarkdownNode>::empty(), wf_frag(r.content), r.open_start == 0, r.open_end == 0,
== fn Slice::new -> r
ensures r == (Slice { content, open_start, open_end }),

%# opg_derive/src/attr.rs: tokens of a literal get its place (proved in the proof `bound`, used by contract elsewhere)
%%fn respan_token_stream
    ensures [C10,C11] syn::content(r) == syn::content(stream)
    decreases stream_depth(stream), 1nat
    loop 0 inv vp_r0@.len() == vp_it0.pos() && forall|i: int| 0 <= i < vp_r0@.len() ==> same_tree(#[trigger] vp_r0@[i], trees(stream)[i])
    loop 0 inv vp_s0 == trees(stream)
    begin broadcast use ax_content, ax_depth;

use tokengeex::{Lattice, Model, VecPool};

/// Position and token of every node put into the lattice of a text.
pub fn nodes(m: &Model, text: &[u8], dropout: f64) -> Vec<(usize, u32)> {
    let mut l = Lattice::default();
    let mut pool = VecPool::with_capacity(8, 4);
    l.from(text, &mut pool);
    m.populate_nodes(&mut l, dropout);
    let n: Vec<(usize, u32)> = l.begin_nodes.iter().flatten().map(|&i| (l.nodes[i].pos, l.nodes[i].token_id)).filter(|x| x.1 < m.vocab_size() as u32).collect();
    l.viterbi();
    n
}

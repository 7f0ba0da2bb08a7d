//! Stand-in for the part of petgraph which the compiler uses (not available offline).
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct NodeIndex(usize);

#[derive(Clone, Debug)]
pub struct Graph<N, E> {
    nodes: Vec<N>,
    edges: Vec<(usize, usize, E)>,
}

impl<N, E> Default for Graph<N, E> {
    fn default() -> Self {
        Self::new()
    }
}

impl<N, E> Graph<N, E> {
    pub fn new() -> Self {
        Self { nodes: vec![], edges: vec![] }
    }

    pub fn add_node(&mut self, node: N) -> NodeIndex {
        self.nodes.push(node);
        NodeIndex(self.nodes.len() - 1)
    }

    pub fn add_edge(&mut self, from: NodeIndex, to: NodeIndex, edge: E) {
        self.edges.push((from.0, to.0, edge));
    }

    pub fn node_weight(&self, index: NodeIndex) -> Option<&N> {
        self.nodes.get(index.0)
    }
}

impl<N, E> std::ops::Index<NodeIndex> for Graph<N, E> {
    type Output = N;

    fn index(&self, index: NodeIndex) -> &N {
        &self.nodes[index.0]
    }
}

pub mod algo {
    use super::*;

    #[derive(Clone, Debug)]
    pub struct Cycle(NodeIndex);

    impl Cycle {
        pub fn node_id(&self) -> NodeIndex {
            self.0
        }
    }

    pub fn toposort<N, E>(graph: &Graph<N, E>, _: Option<()>) -> Result<Vec<NodeIndex>, Cycle> {
        let mut rest = (0..graph.nodes.len()).collect::<BTreeSet<_>>();
        let mut order = vec![];

        while let Some(&first) = rest.iter().next() {
            let Some(&node) = rest
                .iter()
                .find(|&&node| !graph.edges.iter().any(|edge| edge.1 == node && rest.contains(&edge.0)))
            else {
                return Err(Cycle(NodeIndex(first)));
            };
            rest.remove(&node);
            order.push(NodeIndex(node));
        }

        Ok(order)
    }
}

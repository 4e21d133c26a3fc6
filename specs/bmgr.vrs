//@include bfam.vrs
impl BddManager {
    pub proof fn lemma_two(&self)
        requires self.wf()
        ensures dag_ok(self.dag()), two(self.dag()), self.dag()[0] == SN::T(0), self.dag()[1] == SN::T(1), self.dag()[2] == SN::T(2)
    {
        reveal(BddManager::wf); reveal(dag_of);
        assert forall|id: int| #[trigger] self.dag().dom().contains(id) implies two1(self.dag(), id) by { assert(self.node_rep(id)); }
    }
    pub proof fn lemma_base(&self)
        requires self.wf()
        ensures self.zero == 0 && self.one == 1 && self.undet == 2, self.live(0), self.live(1), self.live(2)
    { reveal(BddManager::wf); }
}

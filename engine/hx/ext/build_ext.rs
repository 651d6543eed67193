//! Additions to miniutil's builder that only the harness uses (a child module, for access to private fields).
use super::*;

impl ProgramBuilder {
    pub fn new_global_name(&mut self) -> u32 {
        self.next_global += 1;
        self.next_global - 1
    }
    pub fn insert_global(&mut self, name: GlobalName, g: Global) {
        self.globals.insert(name, g);
    }
}
impl FunctionBuilder {
    pub fn cur_push(&mut self, s: Statement) {
        self.cur_block.as_mut().expect("no current block").statements.push(s)
    }
    /// Ends the current block.
    pub fn end_block(&mut self, terminator: Terminator) {
        let b = self.cur_block.take().expect("no current block");
        let bb = BasicBlock { statements: b.statements, terminator, kind: b.kind };
        assert!(!self.blocks.contains_key(b.name));
        self.blocks.insert(b.name, bb);
    }
    /// Any intrinsic.
    pub fn intrinsic(&mut self, intrinsic: IntrinsicOp, args: &[ValueExpr], ret: PlaceExpr) {
        let arguments: List<ValueExpr> = args.iter().cloned().collect();
        let kind = self.cur_block.as_ref().unwrap().kind;
        let next = self.declare_block();
        self.end_block(Terminator::Intrinsic { intrinsic, arguments, ret, next_block: Some(next) });
        self.set_cur_block(next, kind);
    }
}

(module
  (func (type $sig) (result i32) (param i32) (i32.const 0))
  (func (param i32) (type $sig) (result i32) (i32.const 0))
  (func (param i32) (result i32) (type $sig) (i32.const 0))
  (func (result i32) (type $sig) (param i32) (i32.const 0))
  (func (result i32) (param i32) (type $sig) (i32.const 0))
  (func (result i32) (param i32) (i32.const 0))

  (func (nop) (local i32))
  (func (nop) (param i32))
  (func (nop) (result i32))
  (func (local i32) (param i32))
  (func (local i32) (result i32) (local.get 0))
  (func (result i32) (param i32) (local.get 0))

  (func (param $p i))
  (func (type $))
  (func (param $p))
)

(module
  (type (func (result i32) (param i32)))
  (type (func (result $x i32)))
  (type)
  (type ())
)

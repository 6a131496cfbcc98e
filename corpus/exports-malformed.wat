(module
  (export "" (fu))
  (export "" (func $))
  (export "")
  (export "" (func))
  (export (func))
  (func (export))
)

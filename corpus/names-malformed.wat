(module
  (func $f1
    (local.get $)
  )
)

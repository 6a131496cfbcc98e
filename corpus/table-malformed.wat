(module
  (table 0)
  (table ()
  (table funcref ())
  (table funcref (elem ())))
)

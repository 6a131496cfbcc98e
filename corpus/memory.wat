(module (memory 0))
(module (memory 0 0))
(module (memory (data)))
(module (memory (data "x")))

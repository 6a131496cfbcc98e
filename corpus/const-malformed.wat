(module
  (func (i32.const 0x) drop)
  (func (i32.const 1x) drop)
  (func (i32.const 0xg) drop)
  (func (f32.const .0) drop)
  (func (f32.const .0e0) drop)
  (func (f32.const 0e) drop)
  (func (f32.const 0e+) drop)
  (func (f32.const 0.0e) drop)
  (func (f32.const 0.0e-) drop)
  (func (f32.const 0x.) drop)
  (func (f32.const 0x0.g) drop)
  (func (f32.const 0x0p) drop)
  (func (f32.const 0x0p+) drop)
  (func (f32.const 0x0p-) drop)
  (func (f32.const 0x0.0p) drop)
  (func (f32.const 0x0.0p+) drop)
  (func (f32.const 0x0.0p-) drop)
  (func (f32.const 0x0pA) drop)
)

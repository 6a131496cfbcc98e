(module
  (global f32 (f32.const _100))
  (global f32 (f32.const +_100))
  (global f32 (f32.const -_100))
  (global f32 (f32.const 99_))
  (global f32 (f32.const _1.0))
  (global f32 (f32.const 1.0_))
  (global f32 (f32.const 1_.0))
  (global f32 (f32.const 1._0))
  (global f32 (f32.const _1e1))
  (global f32 (f32.const 1e1_))
  (global f32 (f32.const 1_e1))
  (global f32 (f32.const 1e_1))
  (global f32 (f32.const _1.0e1))
  (global f32 (f32.const 1.0e1_))
  (global f32 (f32.const 1.0_e1))
  (global f32 (f32.const 1.0e_1))
  (global f32 (f32.const 1.0e+_1))
  (global f32 (f32.const 1.0e_+1))
  (global f32 (f32.const _0x100))
  (global f32 (f32.const 0_x100))
  (global f32 (f32.const 0x_100))
  (global f32 (f32.const 0x00_))
  (global f32 (f32.const 0xff__ffff))
  (global f32 (f32.const 0x_1.0))
  (global f32 (f32.const 0x1.0_))
  (global f32 (f32.const 0x1_.0))
  (global f32 (f32.const 0x1._0))
  (global f32 (f32.const 0x_1p1))
  (global f32 (f32.const 0x1p1_))
  (global f32 (f32.const 0x1_p1))
  (global f32 (f32.const 0x1p_1))
  (global f32 (f32.const 0x_1.0p1))
  (global f32 (f32.const 0x1.0p1_))
  (global f32 (f32.const 0x1.0_p1))
  (global f32 (f32.const 0x1.0p_1))
  (global f32 (f32.const 0x1.0p+_1))
  (global f32 (f32.const 0x1.0p_+1))
  (func (result i32) (i32.const nan:arithmetic))
  (func (result i32) (i32.const nan:canonical))
)

[tool-version] Z3 4.16.0
[mk-app] #1 true
[mk-app] #2 false
[mk-app] #1 true
[mk-app] #2 false
[mk-app] #3 pi
[mk-app] #4 euler
[mk-var] datatype#0 0
[mk-var] datatype#1 1
[mk-app] datatype#2 insert datatype#0 datatype#1
[mk-app] datatype#3 pattern datatype#2
[mk-app] datatype#4 head datatype#2
[mk-app] datatype#5 = datatype#0 datatype#4
[mk-quant] datatype#6 constructor_accessor_axiom 2 datatype#3 datatype#5
[attach-var-names] datatype#6 (;k!0) (;List)
[mk-app] datatype#7 tail datatype#2
[mk-app] datatype#8 = datatype#1 datatype#7
[mk-quant] datatype#9 constructor_accessor_axiom 2 datatype#3 datatype#8
[attach-var-names] datatype#9 (;k!0) (;List)
[mk-app] #5 bv
[attach-meaning] #5 bv #b0
[mk-var] #6 0
[mk-var] #7 1
[mk-var] #8 2
[mk-var] #9 3
[mk-var] #10 4
[mk-var] #11 5
[mk-var] #12 6
[mk-var] #13 7
[mk-var] #14 8
[mk-var] #15 9
[mk-var] #16 10
[mk-var] #17 11
[mk-var] #18 12
[mk-var] #19 13
[mk-var] #20 14
[mk-app] #21 + #14 #12
[attach-enode] #1 0
[attach-enode] #2 0
[mk-app] #22 fuel_defaults
[mk-var] #23 0
[mk-app] #24 fuel_bool #23
[mk-app] #25 fuel_bool_default #23
[mk-app] #26 = #24 #25
[mk-app] #27 pattern #24
[mk-quant] #28 prelude_fuel_defaults 1 #27 #26
[attach-var-names] #28 (|id| ; |FuelId|)
[mk-app] #29 => #22 #28
[mk-app] #30 not #22
[mk-app] #31 or #30 #28
[inst-discovered] theory-solving 0x0 basic# ; #29
[mk-app] #32 = #29 #31
[instance] 0x0 #32
[attach-enode] #32 0
[end-of-instance]
[mk-var] #32 1
[mk-var] #33 0
[mk-app] #34 mut_ref_update_current% #32 #33
[mk-app] #35 mut_ref_current% #34
[mk-app] #36 = #35 #33
[mk-app] #37 pattern #34
[mk-quant] #38 prelude_mut_ref_update_current_current 2 #37 #36
[attach-var-names] #38 (|arg| ; |Poly|) (|m| ; |Poly|)
[mk-app] #39 mut_ref_future% #34
[mk-app] #40 mut_ref_future% #32
[mk-app] #41 = #39 #40
[mk-quant] #42 prelude_mut_ref_update_current_future 2 #37 #41
[attach-var-names] #42 (|arg| ; |Poly|) (|m| ; |Poly|)
[mk-var] #43 2
[mk-var] #44 1
[mk-var] #45 0
[mk-app] #46 MUTREF #44 #45
[mk-app] #47 has_type #43 #46
[mk-app] #48 mut_ref_current% #43
[mk-app] #49 has_type #48 #45
[mk-app] #50 => #47 #49
[mk-app] #51 pattern #47 #48
[mk-quant] #52 prelude_mut_ref_current_has_type 3 #51 #50
[attach-var-names] #52 (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #53 not #47
[mk-app] #54 or #53 #49
[inst-discovered] theory-solving 0x0 basic# ; #50
[mk-app] #55 = #50 #54
[instance] 0x0 #55
[attach-enode] #55 0
[end-of-instance]
[mk-quant] #55 prelude_mut_ref_current_has_type 3 #51 #54
[attach-var-names] #55 (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #56 mut_ref_future% #43
[mk-app] #57 has_type #56 #45
[mk-app] #58 => #47 #57
[mk-app] #59 pattern #47 #56
[mk-quant] #60 prelude_mut_ref_future_has_type 3 #59 #58
[attach-var-names] #60 (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #61 or #53 #57
[inst-discovered] theory-solving 0x0 basic# ; #58
[mk-app] #62 = #58 #61
[instance] 0x0 #62
[attach-enode] #62 0
[end-of-instance]
[mk-quant] #62 prelude_mut_ref_future_has_type 3 #59 #61
[attach-var-names] #62 (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-var] #63 3
[mk-var] #64 2
[mk-var] #65 1
[mk-app] #66 MUTREF #64 #65
[mk-app] #67 has_type #63 #66
[mk-app] #68 has_type #33 #65
[mk-app] #69 and #67 #68
[mk-app] #70 mut_ref_update_current% #63 #33
[mk-app] #71 has_type #70 #66
[mk-app] #72 => #69 #71
[mk-app] #73 pattern #67 #70
[mk-quant] #74 prelude_mut_ref_update_has_type 4 #73 #72
[attach-var-names] #74 (|arg| ; |Poly|) (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #75 not #69
[mk-app] #76 or #75 #71
[inst-discovered] theory-solving 0x0 basic# ; #72
[mk-app] #77 = #72 #76
[instance] 0x0 #77
[attach-enode] #77 0
[end-of-instance]
[mk-quant] #77 prelude_mut_ref_update_has_type 4 #73 #76
[attach-var-names] #77 (|arg| ; |Poly|) (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-var] #78 0
[mk-app] #79 sized #78
[mk-app] #80 DST #78
[mk-app] #81 sized #80
[mk-app] #82 => #79 #81
[mk-app] #83 pattern #81
[mk-quant] #84 prelude_sized_decorate_struct_inherit 1 #83 #82
[attach-var-names] #84 (|d| ; |Dcr|)
[mk-app] #85 not #79
[mk-app] #86 or #85 #81
[inst-discovered] theory-solving 0x0 basic# ; #82
[mk-app] #87 = #82 #86
[instance] 0x0 #87
[attach-enode] #87 0
[end-of-instance]
[mk-quant] #87 prelude_sized_decorate_struct_inherit 1 #83 #86
[attach-var-names] #87 (|d| ; |Dcr|)
[mk-app] #88 REF #78
[mk-app] #89 sized #88
[mk-app] #90 pattern #89
[mk-quant] #91 prelude_sized_decorate_ref 1 #90 #89
[attach-var-names] #91 (|d| ; |Dcr|)
[mk-app] #92 BOX #64 #65 #78
[mk-app] #93 sized #92
[mk-app] #94 pattern #93
[mk-quant] #95 prelude_sized_decorate_box 3 #94 #93
[attach-var-names] #95 (|d2| ; |Dcr|) (|t| ; |Type|) (|d| ; |Dcr|)
[mk-app] #96 RC #64 #65 #78
[mk-app] #97 sized #96
[mk-app] #98 pattern #97
[mk-quant] #99 prelude_sized_decorate_rc 3 #98 #97
[attach-var-names] #99 (|d2| ; |Dcr|) (|t| ; |Type|) (|d| ; |Dcr|)
[mk-app] #100 ARC #64 #65 #78
[mk-app] #101 sized #100
[mk-app] #102 pattern #101
[mk-quant] #103 prelude_sized_decorate_arc 3 #102 #101
[attach-var-names] #103 (|d2| ; |Dcr|) (|t| ; |Type|) (|d| ; |Dcr|)
[mk-app] #104 GHOST #78
[mk-app] #105 sized #104
[mk-app] #106 pattern #105
[mk-quant] #107 prelude_sized_decorate_ghost 1 #106 #105
[attach-var-names] #107 (|d| ; |Dcr|)
[mk-app] #108 TRACKED #78
[mk-app] #109 sized #108
[mk-app] #110 pattern #109
[mk-quant] #111 prelude_sized_decorate_tracked 1 #110 #109
[attach-var-names] #111 (|d| ; |Dcr|)
[mk-app] #112 NEVER #78
[mk-app] #113 sized #112
[mk-app] #114 pattern #113
[mk-quant] #115 prelude_sized_decorate_never 1 #114 #113
[attach-var-names] #115 (|d| ; |Dcr|)
[mk-app] #116 CONST_PTR #78
[mk-app] #117 sized #116
[mk-app] #118 pattern #117
[mk-quant] #119 prelude_sized_decorate_const_ptr 1 #118 #117
[attach-var-names] #119 (|d| ; |Dcr|)
[mk-app] #120 $
[mk-app] #121 sized #120
[mk-var] #122 0
[mk-app] #123 CONST_INT #122
[mk-app] #124 const_int #123
[mk-app] #125 = #122 #124
[mk-app] #126 pattern #123
[mk-quant] #127 prelude_type_id_const_int 1 #126 #125
[attach-var-names] #127 (|i| ; |Int|)
[mk-var] #128 0
[mk-app] #129 CONST_BOOL #128
[mk-app] #130 const_bool #129
[mk-app] #131 = #128 #130
[mk-app] #132 pattern #129
[mk-quant] #133 prelude_type_id_const_bool 1 #132 #131
[attach-var-names] #133 (|b| ; |Bool|)
[mk-app] #134 B #128
[mk-app] #135 BOOL
[mk-app] #136 has_type #134 #135
[mk-app] #137 pattern #136
[mk-quant] #138 prelude_has_type_bool 1 #137 #136
[attach-var-names] #138 (|b| ; |Bool|)
[mk-app] #139 R #6
[mk-app] #140 REAL
[mk-app] #141 has_type #139 #140
[mk-app] #142 pattern #141
[mk-quant] #143 prelude_has_type_real 1 #142 #141
[attach-var-names] #143 (|r| ; |Real|)
[mk-app] #144 as_type #32 #45
[mk-app] #145 has_type #144 #45
[mk-app] #146 has_type #32 #45
[mk-app] #147 = #32 #144
[mk-app] #148 => #146 #147
[mk-app] #149 and #145 #148
[mk-app] #150 pattern #144
[mk-quant] #151 prelude_as_type 2 #150 #149
[attach-var-names] #151 (|t| ; |Type|) (|x| ; |Poly|)
[mk-app] #152 not #146
[mk-app] #153 or #152 #147
[inst-discovered] theory-solving 0x0 basic# ; #148
[mk-app] #154 = #148 #153
[instance] 0x0 #154
[attach-enode] #154 0
[end-of-instance]
[mk-app] #154 and #145 #153
[mk-quant] #155 prelude_as_type 2 #150 #154
[attach-var-names] #155 (|t| ; |Type|) (|x| ; |Poly|)
[mk-var] #156 0
[mk-app] #157 mk_fun #156
[mk-app] #158 = #157 #156
[mk-app] #159 pattern #157
[mk-quant] #160 prelude_mk_fun 1 #159 #158
[attach-var-names] #160 (|x| ; |%%Function%%|)
[mk-app] #161 %B #134
[mk-app] #162 = #128 #161
[mk-app] #163 pattern #134
[mk-quant] #164 prelude_unbox_box_bool 1 #163 #162
[attach-var-names] #164 (|x| ; |Bool|)
[mk-app] #165 I #122
[mk-app] #166 %I #165
[mk-app] #167 = #122 #166
[mk-app] #168 pattern #165
[mk-quant] #169 prelude_unbox_box_int 1 #168 #167
[attach-var-names] #169 (|x| ; |Int|)
[mk-app] #170 %R #139
[mk-app] #171 = #6 #170
[mk-app] #172 pattern #139
[mk-quant] #173 prelude_unbox_box_real 1 #172 #171
[attach-var-names] #173 (|x| ; |Real|)
[mk-app] #174 has_type #33 #135
[mk-app] #175 %B #33
[mk-app] #176 B #175
[mk-app] #177 = #33 #176
[mk-app] #178 => #174 #177
[mk-app] #179 pattern #174
[mk-quant] #180 prelude_box_unbox_bool 1 #179 #178
[attach-var-names] #180 (|x| ; |Poly|)
[mk-app] #181 not #174
[mk-app] #182 or #181 #177
[inst-discovered] theory-solving 0x0 basic# ; #178
[mk-app] #183 = #178 #182
[instance] 0x0 #183
[attach-enode] #183 0
[end-of-instance]
[mk-quant] #183 prelude_box_unbox_bool 1 #179 #182
[attach-var-names] #183 (|x| ; |Poly|)
[mk-app] #184 INT
[mk-app] #185 has_type #33 #184
[mk-app] #186 %I #33
[mk-app] #187 I #186
[mk-app] #188 = #33 #187
[mk-app] #189 => #185 #188
[mk-app] #190 pattern #185
[mk-quant] #191 prelude_box_unbox_int 1 #190 #189
[attach-var-names] #191 (|x| ; |Poly|)
[mk-app] #192 not #185
[mk-app] #193 or #192 #188
[inst-discovered] theory-solving 0x0 basic# ; #189
[mk-app] #194 = #189 #193
[instance] 0x0 #194
[attach-enode] #194 0
[end-of-instance]
[mk-quant] #194 prelude_box_unbox_int 1 #190 #193
[attach-var-names] #194 (|x| ; |Poly|)
[mk-app] #195 NAT
[mk-app] #196 has_type #33 #195
[mk-app] #197 => #196 #188
[mk-app] #198 pattern #196
[mk-quant] #199 prelude_box_unbox_nat 1 #198 #197
[attach-var-names] #199 (|x| ; |Poly|)
[mk-app] #200 not #196
[mk-app] #201 or #200 #188
[inst-discovered] theory-solving 0x0 basic# ; #197
[mk-app] #202 = #197 #201
[instance] 0x0 #202
[attach-enode] #202 0
[end-of-instance]
[mk-quant] #202 prelude_box_unbox_nat 1 #198 #201
[attach-var-names] #202 (|x| ; |Poly|)
[mk-app] #203 USIZE
[mk-app] #204 has_type #33 #203
[mk-app] #205 => #204 #188
[mk-app] #206 pattern #204
[mk-quant] #207 prelude_box_unbox_usize 1 #206 #205
[attach-var-names] #207 (|x| ; |Poly|)
[mk-app] #208 not #204
[mk-app] #209 or #208 #188
[inst-discovered] theory-solving 0x0 basic# ; #205
[mk-app] #210 = #205 #209
[instance] 0x0 #210
[attach-enode] #210 0
[end-of-instance]
[mk-quant] #210 prelude_box_unbox_usize 1 #206 #209
[attach-var-names] #210 (|x| ; |Poly|)
[mk-app] #211 ISIZE
[mk-app] #212 has_type #33 #211
[mk-app] #213 => #212 #188
[mk-app] #214 pattern #212
[mk-quant] #215 prelude_box_unbox_isize 1 #214 #213
[attach-var-names] #215 (|x| ; |Poly|)
[mk-app] #216 not #212
[mk-app] #217 or #216 #188
[inst-discovered] theory-solving 0x0 basic# ; #213
[mk-app] #218 = #213 #217
[instance] 0x0 #218
[attach-enode] #218 0
[end-of-instance]
[mk-quant] #218 prelude_box_unbox_isize 1 #214 #217
[attach-var-names] #218 (|x| ; |Poly|)
[mk-var] #219 1
[mk-app] #220 UINT #219
[mk-app] #221 has_type #33 #220
[mk-app] #222 => #221 #188
[mk-app] #223 pattern #221
[mk-quant] #224 prelude_box_unbox_uint 2 #223 #222
[attach-var-names] #224 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #225 not #221
[mk-app] #226 or #225 #188
[inst-discovered] theory-solving 0x0 basic# ; #222
[mk-app] #227 = #222 #226
[instance] 0x0 #227
[attach-enode] #227 0
[end-of-instance]
[mk-quant] #227 prelude_box_unbox_uint 2 #223 #226
[attach-var-names] #227 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #228 SINT #219
[mk-app] #229 has_type #33 #228
[mk-app] #230 => #229 #188
[mk-app] #231 pattern #229
[mk-quant] #232 prelude_box_unbox_sint 2 #231 #230
[attach-var-names] #232 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #233 not #229
[mk-app] #234 or #233 #188
[inst-discovered] theory-solving 0x0 basic# ; #230
[mk-app] #235 = #230 #234
[instance] 0x0 #235
[attach-enode] #235 0
[end-of-instance]
[mk-quant] #235 prelude_box_unbox_sint 2 #231 #234
[attach-var-names] #235 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #236 FLOAT #219
[mk-app] #237 has_type #33 #236
[mk-app] #238 => #237 #188
[mk-app] #239 pattern #237
[mk-quant] #240 prelude_box_unbox_float 2 #239 #238
[attach-var-names] #240 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #241 not #237
[mk-app] #242 or #241 #188
[inst-discovered] theory-solving 0x0 basic# ; #238
[mk-app] #243 = #238 #242
[instance] 0x0 #243
[attach-enode] #243 0
[end-of-instance]
[mk-quant] #243 prelude_box_unbox_float 2 #239 #242
[attach-var-names] #243 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #244 CHAR
[mk-app] #245 has_type #33 #244
[mk-app] #246 => #245 #188
[mk-app] #247 pattern #245
[mk-quant] #248 prelude_box_unbox_char 1 #247 #246
[attach-var-names] #248 (|x| ; |Poly|)
[mk-app] #249 not #245
[mk-app] #250 or #249 #188
[inst-discovered] theory-solving 0x0 basic# ; #246
[mk-app] #251 = #246 #250
[instance] 0x0 #251
[attach-enode] #251 0
[end-of-instance]
[mk-quant] #251 prelude_box_unbox_char 1 #247 #250
[attach-var-names] #251 (|x| ; |Poly|)
[mk-app] #252 has_type #33 #140
[mk-app] #253 %R #33
[mk-app] #254 R #253
[mk-app] #255 = #33 #254
[mk-app] #256 => #252 #255
[mk-app] #257 pattern #252
[mk-quant] #258 prelude_box_unbox_real 1 #257 #256
[attach-var-names] #258 (|x| ; |Poly|)
[mk-app] #259 not #252
[mk-app] #260 or #259 #255
[inst-discovered] theory-solving 0x0 basic# ; #256
[mk-app] #261 = #256 #260
[instance] 0x0 #261
[attach-enode] #261 0
[end-of-instance]
[mk-quant] #261 prelude_box_unbox_real 1 #257 #260
[attach-var-names] #261 (|x| ; |Poly|)
[mk-var] #262 3
[mk-var] #263 2
[mk-app] #264 = #32 #33
[mk-app] #265 ext_eq #262 #263 #32 #33
[mk-app] #266 = #264 #265
[mk-app] #267 pattern #265
[mk-quant] #268 prelude_ext_eq 4 #267 #266
[attach-var-names] #268 (|y| ; |Poly|) (|x| ; |Poly|) (|t| ; |Type|) (|deep| ; |Bool|)
[mk-app] #269 SZ
[mk-app] #270 Int
[attach-meaning] #270 arith 32
[mk-app] #271 = #269 #270
[mk-app] #272 Int
[attach-meaning] #272 arith 64
[mk-app] #273 = #269 #272
[mk-app] #274 or #271 #273
[mk-app] #275 Int
[attach-meaning] #275 arith 8
[mk-app] #276 uHi #275
[mk-app] #277 Int
[attach-meaning] #277 arith 256
[mk-app] #278 = #276 #277
[mk-app] #279 Int
[attach-meaning] #279 arith 16
[mk-app] #280 uHi #279
[mk-app] #281 Int
[attach-meaning] #281 arith 65536
[mk-app] #282 = #280 #281
[attach-meaning] #270 arith 32
[mk-app] #283 uHi #270
[mk-app] #284 Int
[attach-meaning] #284 arith 4294967296
[mk-app] #285 = #283 #284
[attach-meaning] #272 arith 64
[mk-app] #286 uHi #272
[mk-app] #287 Int
[attach-meaning] #287 arith 18446744073709551616
[mk-app] #288 = #286 #287
[mk-app] #289 Int
[attach-meaning] #289 arith 128
[mk-app] #290 uHi #289
[mk-app] #291 Int
[attach-meaning] #291 arith 1
[mk-app] #292 Int
[attach-meaning] #292 arith 340282366920938463463374607431768211455
[mk-app] #293 + #291 #292
[mk-app] #294 = #290 #293
[mk-app] #295 Int
[attach-meaning] #295 arith 340282366920938463463374607431768211456
[inst-discovered] theory-solving 0x0 arith# ; #293
[mk-app] #296 = #293 #295
[instance] 0x0 #296
[attach-enode] #296 0
[end-of-instance]
[mk-app] #296 = #290 #295
[mk-app] #297 iLo #275
[attach-meaning] #289 arith 128
[mk-app] #298 - #289
[mk-app] #299 = #297 #298
[mk-app] #300 Int
[attach-meaning] #300 arith (- 128)
[inst-discovered] theory-solving 0x0 arith# ; #298
[mk-app] #301 = #298 #300
[instance] 0x0 #301
[attach-enode] #301 0
[end-of-instance]
[mk-app] #301 = #297 #300
[attach-meaning] #279 arith 16
[mk-app] #302 iLo #279
[mk-app] #303 Int
[attach-meaning] #303 arith 32768
[mk-app] #304 - #303
[mk-app] #305 = #302 #304
[mk-app] #306 Int
[attach-meaning] #306 arith (- 32768)
[inst-discovered] theory-solving 0x0 arith# ; #304
[mk-app] #307 = #304 #306
[instance] 0x0 #307
[attach-enode] #307 0
[end-of-instance]
[mk-app] #307 = #302 #306
[attach-meaning] #270 arith 32
[mk-app] #308 iLo #270
[mk-app] #309 Int
[attach-meaning] #309 arith 2147483648
[mk-app] #310 - #309
[mk-app] #311 = #308 #310
[mk-app] #312 Int
[attach-meaning] #312 arith (- 2147483648)
[inst-discovered] theory-solving 0x0 arith# ; #310
[mk-app] #313 = #310 #312
[instance] 0x0 #313
[attach-enode] #313 0
[end-of-instance]
[mk-app] #313 = #308 #312
[attach-meaning] #272 arith 64
[mk-app] #314 iLo #272
[mk-app] #315 Int
[attach-meaning] #315 arith 9223372036854775808
[mk-app] #316 - #315
[mk-app] #317 = #314 #316
[mk-app] #318 Int
[attach-meaning] #318 arith (- 9223372036854775808)
[inst-discovered] theory-solving 0x0 arith# ; #316
[mk-app] #319 = #316 #318
[instance] 0x0 #319
[attach-enode] #319 0
[end-of-instance]
[mk-app] #319 = #314 #318
[attach-meaning] #289 arith 128
[mk-app] #320 iLo #289
[mk-app] #321 Int
[attach-meaning] #321 arith 170141183460469231731687303715884105728
[mk-app] #322 - #321
[mk-app] #323 = #320 #322
[mk-app] #324 Int
[attach-meaning] #324 arith (- 170141183460469231731687303715884105728)
[inst-discovered] theory-solving 0x0 arith# ; #322
[mk-app] #325 = #322 #324
[instance] 0x0 #325
[attach-enode] #325 0
[end-of-instance]
[mk-app] #325 = #320 #324
[mk-app] #326 iHi #275
[attach-meaning] #289 arith 128
[mk-app] #327 = #326 #289
[attach-meaning] #279 arith 16
[mk-app] #328 iHi #279
[attach-meaning] #303 arith 32768
[mk-app] #329 = #328 #303
[attach-meaning] #270 arith 32
[mk-app] #330 iHi #270
[attach-meaning] #309 arith 2147483648
[mk-app] #331 = #330 #309
[attach-meaning] #272 arith 64
[mk-app] #332 iHi #272
[attach-meaning] #315 arith 9223372036854775808
[mk-app] #333 = #332 #315
[attach-meaning] #289 arith 128
[mk-app] #334 iHi #289
[attach-meaning] #321 arith 170141183460469231731687303715884105728
[mk-app] #335 = #334 #321
[mk-app] #336 Int
[attach-meaning] #336 arith 0
[mk-app] #337 nClip #122
[mk-app] #338 <= #336 #337
[mk-app] #339 <= #336 #122
[mk-app] #340 = #122 #337
[mk-app] #341 => #339 #340
[mk-app] #342 and #338 #341
[mk-app] #343 pattern #337
[mk-quant] #344 prelude_nat_clip 1 #343 #342
[attach-var-names] #344 (|i| ; |Int|)
[mk-app] #345 Int
[attach-meaning] #345 arith (- 1)
[mk-app] #346 * #345 #337
[mk-app] #347 >= #337 #336
[inst-discovered] theory-solving 0x0 arith# ; #338
[mk-app] #345 = #338 #347
[instance] 0x0 #345
[attach-enode] #345 0
[end-of-instance]
[mk-app] #345 Int
[attach-meaning] #345 arith (- 1)
[mk-app] #346 * #345 #122
[mk-app] #348 >= #122 #336
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #345 = #339 #348
[instance] 0x0 #345
[attach-enode] #345 0
[end-of-instance]
[mk-app] #345 not #348
[mk-app] #346 or #345 #340
[mk-app] #349 => #348 #340
[inst-discovered] theory-solving 0x0 basic# ; #349
[mk-app] #350 = #349 #346
[instance] 0x0 #350
[attach-enode] #350 0
[end-of-instance]
[mk-app] #349 and #347 #346
[mk-quant] #350 prelude_nat_clip 1 #343 #349
[attach-var-names] #350 (|i| ; |Int|)
[mk-app] #351 uClip #219 #122
[mk-app] #352 <= #336 #351
[mk-app] #353 uHi #219
[mk-app] #354 < #351 #353
[mk-app] #355 < #122 #353
[mk-app] #356 and #339 #355
[mk-app] #357 = #122 #351
[mk-app] #358 => #356 #357
[mk-app] #359 and #352 #354 #358
[mk-app] #360 pattern #351
[mk-quant] #361 prelude_u_clip 2 #360 #359
[attach-var-names] #361 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #362 Int
[attach-meaning] #362 arith (- 1)
[mk-app] #363 * #362 #351
[mk-app] #364 >= #351 #336
[inst-discovered] theory-solving 0x0 arith# ; #352
[mk-app] #362 = #352 #364
[instance] 0x0 #362
[attach-enode] #362 0
[end-of-instance]
[mk-app] #362 <= #353 #351
[mk-app] #363 not #362
[inst-discovered] theory-solving 0x0 arith# ; #354
[mk-app] #365 = #354 #363
[instance] 0x0 #365
[attach-enode] #365 0
[end-of-instance]
[mk-app] #365 Int
[attach-meaning] #365 arith (- 1)
[mk-app] #366 * #365 #351
[mk-app] #367 + #366 #353
[attach-meaning] #365 arith (- 1)
[mk-app] #368 * #365 #353
[mk-app] #369 + #351 #368
[mk-app] #366 >= #369 #336
[inst-discovered] theory-solving 0x0 arith# ; #362
[mk-app] #367 = #362 #366
[instance] 0x0 #367
[attach-enode] #367 0
[end-of-instance]
[mk-app] #367 not #366
[attach-meaning] #365 arith (- 1)
[mk-app] #370 * #365 #122
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #370 = #339 #348
[instance] 0x0 #370
[attach-enode] #370 0
[end-of-instance]
[mk-app] #370 <= #353 #122
[mk-app] #371 not #370
[inst-discovered] theory-solving 0x0 arith# ; #355
[mk-app] #372 = #355 #371
[instance] 0x0 #372
[attach-enode] #372 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #372 * #365 #122
[mk-app] #373 + #372 #353
[attach-meaning] #365 arith (- 1)
[mk-app] #374 + #122 #368
[mk-app] #372 >= #374 #336
[inst-discovered] theory-solving 0x0 arith# ; #370
[mk-app] #373 = #370 #372
[instance] 0x0 #373
[attach-enode] #373 0
[end-of-instance]
[mk-app] #373 not #372
[mk-app] #375 and #348 #373
[mk-app] #376 not #375
[mk-app] #377 or #376 #357
[mk-app] #378 => #375 #357
[inst-discovered] theory-solving 0x0 basic# ; #378
[mk-app] #379 = #378 #377
[instance] 0x0 #379
[attach-enode] #379 0
[end-of-instance]
[mk-app] #378 and #364 #367 #377
[mk-quant] #379 prelude_u_clip 2 #360 #378
[attach-var-names] #379 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #362 iLo #219
[mk-app] #363 iClip #219 #122
[mk-app] #370 <= #362 #363
[mk-app] #371 iHi #219
[mk-app] #380 < #363 #371
[mk-app] #381 <= #362 #122
[mk-app] #382 < #122 #371
[mk-app] #383 and #381 #382
[mk-app] #384 = #122 #363
[mk-app] #385 => #383 #384
[mk-app] #386 and #370 #380 #385
[mk-app] #387 pattern #363
[mk-quant] #388 prelude_i_clip 2 #387 #386
[attach-var-names] #388 (|i| ; |Int|) (|bits| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #389 * #365 #363
[mk-app] #390 + #362 #389
[mk-app] #391 <= #390 #336
[inst-discovered] theory-solving 0x0 arith# ; #370
[mk-app] #392 = #370 #391
[instance] 0x0 #392
[attach-enode] #392 0
[end-of-instance]
[mk-app] #392 <= #371 #363
[mk-app] #393 not #392
[inst-discovered] theory-solving 0x0 arith# ; #380
[mk-app] #394 = #380 #393
[instance] 0x0 #394
[attach-enode] #394 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #394 + #389 #371
[attach-meaning] #365 arith (- 1)
[mk-app] #395 * #365 #371
[mk-app] #396 + #363 #395
[mk-app] #394 >= #396 #336
[inst-discovered] theory-solving 0x0 arith# ; #392
[mk-app] #397 = #392 #394
[instance] 0x0 #397
[attach-enode] #397 0
[end-of-instance]
[mk-app] #397 not #394
[attach-meaning] #365 arith (- 1)
[mk-app] #398 * #365 #122
[mk-app] #399 + #398 #362
[attach-meaning] #365 arith (- 1)
[mk-app] #400 * #365 #362
[mk-app] #401 + #122 #400
[mk-app] #398 >= #401 #336
[inst-discovered] theory-solving 0x0 arith# ; #381
[mk-app] #399 = #381 #398
[instance] 0x0 #399
[attach-enode] #399 0
[end-of-instance]
[mk-app] #399 <= #371 #122
[mk-app] #402 not #399
[inst-discovered] theory-solving 0x0 arith# ; #382
[mk-app] #403 = #382 #402
[instance] 0x0 #403
[attach-enode] #403 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #403 * #365 #122
[mk-app] #404 + #403 #371
[attach-meaning] #365 arith (- 1)
[mk-app] #405 + #122 #395
[mk-app] #403 >= #405 #336
[inst-discovered] theory-solving 0x0 arith# ; #399
[mk-app] #404 = #399 #403
[instance] 0x0 #404
[attach-enode] #404 0
[end-of-instance]
[mk-app] #404 not #403
[mk-app] #406 and #398 #404
[mk-app] #407 not #406
[mk-app] #408 or #407 #384
[mk-app] #409 => #406 #384
[inst-discovered] theory-solving 0x0 basic# ; #409
[mk-app] #410 = #409 #408
[instance] 0x0 #410
[attach-enode] #410 0
[end-of-instance]
[mk-app] #409 and #391 #397 #408
[mk-quant] #410 prelude_i_clip 2 #387 #409
[attach-var-names] #410 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #399 charClip #122
[mk-app] #402 <= #336 #399
[mk-app] #392 Int
[attach-meaning] #392 arith 55295
[mk-app] #393 <= #399 #392
[mk-app] #411 and #402 #393
[mk-app] #412 Int
[attach-meaning] #412 arith 57344
[mk-app] #413 <= #412 #399
[mk-app] #414 Int
[attach-meaning] #414 arith 1114111
[mk-app] #415 <= #399 #414
[mk-app] #416 and #413 #415
[mk-app] #417 or #411 #416
[attach-meaning] #392 arith 55295
[mk-app] #418 <= #122 #392
[mk-app] #419 and #339 #418
[attach-meaning] #412 arith 57344
[mk-app] #420 <= #412 #122
[attach-meaning] #414 arith 1114111
[mk-app] #421 <= #122 #414
[mk-app] #422 and #420 #421
[mk-app] #423 or #419 #422
[mk-app] #424 = #122 #399
[mk-app] #425 => #423 #424
[mk-app] #426 and #417 #425
[mk-app] #427 pattern #399
[mk-quant] #428 prelude_char_clip 1 #427 #426
[attach-var-names] #428 (|i| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #429 * #365 #399
[mk-app] #430 >= #399 #336
[inst-discovered] theory-solving 0x0 arith# ; #402
[mk-app] #429 = #402 #430
[instance] 0x0 #429
[attach-enode] #429 0
[end-of-instance]
[mk-app] #429 and #430 #393
[attach-meaning] #365 arith (- 1)
[mk-app] #431 * #365 #399
[mk-app] #432 Int
[attach-meaning] #432 arith (- 57344)
[attach-meaning] #412 arith 57344
[mk-app] #433 >= #399 #412
[inst-discovered] theory-solving 0x0 arith# ; #413
[mk-app] #431 = #413 #433
[instance] 0x0 #431
[attach-enode] #431 0
[end-of-instance]
[mk-app] #431 and #433 #415
[mk-app] #432 or #429 #431
[attach-meaning] #365 arith (- 1)
[mk-app] #434 * #365 #122
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #434 = #339 #348
[instance] 0x0 #434
[attach-enode] #434 0
[end-of-instance]
[mk-app] #434 and #348 #418
[attach-meaning] #365 arith (- 1)
[mk-app] #435 * #365 #122
[mk-app] #436 Int
[attach-meaning] #436 arith (- 57344)
[attach-meaning] #412 arith 57344
[mk-app] #437 >= #122 #412
[inst-discovered] theory-solving 0x0 arith# ; #420
[mk-app] #435 = #420 #437
[instance] 0x0 #435
[attach-enode] #435 0
[end-of-instance]
[mk-app] #435 and #437 #421
[mk-app] #436 or #434 #435
[mk-app] #438 not #436
[mk-app] #439 or #438 #424
[mk-app] #440 => #436 #424
[inst-discovered] theory-solving 0x0 basic# ; #440
[mk-app] #441 = #440 #439
[instance] 0x0 #441
[attach-enode] #441 0
[end-of-instance]
[mk-app] #440 and #432 #439
[mk-quant] #441 prelude_char_clip 1 #427 #440
[attach-var-names] #441 (|i| ; |Int|)
[mk-app] #442 uInv #219 #122
[mk-app] #443 = #442 #356
[mk-app] #444 pattern #442
[mk-quant] #445 prelude_u_inv 2 #444 #443
[attach-var-names] #445 (|i| ; |Int|) (|bits| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #446 * #365 #122
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #446 = #339 #348
[instance] 0x0 #446
[attach-enode] #446 0
[end-of-instance]
[mk-app] #446 <= #353 #122
[mk-app] #447 not #446
[inst-discovered] theory-solving 0x0 arith# ; #355
[mk-app] #448 = #355 #447
[instance] 0x0 #448
[attach-enode] #448 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #448 * #365 #122
[mk-app] #449 + #448 #353
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #446
[mk-app] #448 = #446 #372
[instance] 0x0 #448
[attach-enode] #448 0
[end-of-instance]
[mk-app] #448 = #442 #375
[mk-quant] #449 prelude_u_inv 2 #444 #448
[attach-var-names] #449 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #446 iInv #219 #122
[mk-app] #447 = #446 #383
[mk-app] #450 pattern #446
[mk-quant] #451 prelude_i_inv 2 #450 #447
[attach-var-names] #451 (|i| ; |Int|) (|bits| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #452 * #365 #122
[mk-app] #453 + #452 #362
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #381
[mk-app] #452 = #381 #398
[instance] 0x0 #452
[attach-enode] #452 0
[end-of-instance]
[mk-app] #452 <= #371 #122
[mk-app] #453 not #452
[inst-discovered] theory-solving 0x0 arith# ; #382
[mk-app] #454 = #382 #453
[instance] 0x0 #454
[attach-enode] #454 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #454 * #365 #122
[mk-app] #455 + #454 #371
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #452
[mk-app] #454 = #452 #403
[instance] 0x0 #454
[attach-enode] #454 0
[end-of-instance]
[mk-app] #454 = #446 #406
[mk-quant] #455 prelude_i_inv 2 #450 #454
[attach-var-names] #455 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #452 charInv #122
[attach-meaning] #392 arith 55295
[attach-meaning] #412 arith 57344
[attach-meaning] #414 arith 1114111
[mk-app] #453 = #452 #423
[mk-app] #456 pattern #452
[mk-quant] #457 prelude_char_inv 1 #456 #453
[attach-var-names] #457 (|i| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #458 * #365 #122
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #458 = #339 #348
[instance] 0x0 #458
[attach-enode] #458 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #458 * #365 #122
[mk-app] #459 Int
[attach-meaning] #459 arith (- 57344)
[attach-meaning] #412 arith 57344
[inst-discovered] theory-solving 0x0 arith# ; #420
[mk-app] #458 = #420 #437
[instance] 0x0 #458
[attach-enode] #458 0
[end-of-instance]
[mk-app] #458 = #452 #436
[mk-quant] #459 prelude_char_inv 1 #456 #458
[attach-var-names] #459 (|i| ; |Int|)
[mk-app] #460 has_type #165 #184
[mk-app] #461 pattern #460
[mk-quant] #462 prelude_has_type_int 1 #461 #460
[attach-var-names] #462 (|x| ; |Int|)
[mk-app] #463 has_type #165 #195
[mk-app] #464 => #339 #463
[mk-app] #465 pattern #463
[mk-quant] #466 prelude_has_type_nat 1 #465 #464
[attach-var-names] #466 (|x| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #467 * #365 #122
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #467 = #339 #348
[instance] 0x0 #467
[attach-enode] #467 0
[end-of-instance]
[mk-app] #467 or #345 #463
[mk-app] #468 => #348 #463
[inst-discovered] theory-solving 0x0 basic# ; #468
[mk-app] #469 = #468 #467
[instance] 0x0 #469
[attach-enode] #469 0
[end-of-instance]
[mk-quant] #468 prelude_has_type_nat 1 #465 #467
[attach-var-names] #468 (|x| ; |Int|)
[mk-app] #469 uInv #269 #122
[mk-app] #470 has_type #165 #203
[mk-app] #471 => #469 #470
[mk-app] #472 pattern #470
[mk-quant] #473 prelude_has_type_usize 1 #472 #471
[attach-var-names] #473 (|x| ; |Int|)
[mk-app] #474 not #469
[mk-app] #475 or #474 #470
[inst-discovered] theory-solving 0x0 basic# ; #471
[mk-app] #476 = #471 #475
[instance] 0x0 #476
[attach-enode] #476 0
[end-of-instance]
[mk-quant] #476 prelude_has_type_usize 1 #472 #475
[attach-var-names] #476 (|x| ; |Int|)
[mk-app] #477 iInv #269 #122
[mk-app] #478 has_type #165 #211
[mk-app] #479 => #477 #478
[mk-app] #480 pattern #478
[mk-quant] #481 prelude_has_type_isize 1 #480 #479
[attach-var-names] #481 (|x| ; |Int|)
[mk-app] #482 not #477
[mk-app] #483 or #482 #478
[inst-discovered] theory-solving 0x0 basic# ; #479
[mk-app] #484 = #479 #483
[instance] 0x0 #484
[attach-enode] #484 0
[end-of-instance]
[mk-quant] #484 prelude_has_type_isize 1 #480 #483
[attach-var-names] #484 (|x| ; |Int|)
[mk-app] #485 has_type #165 #220
[mk-app] #486 => #442 #485
[mk-app] #487 pattern #485
[mk-quant] #488 prelude_has_type_uint 2 #487 #486
[attach-var-names] #488 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #489 not #442
[mk-app] #490 or #489 #485
[inst-discovered] theory-solving 0x0 basic# ; #486
[mk-app] #491 = #486 #490
[instance] 0x0 #491
[attach-enode] #491 0
[end-of-instance]
[mk-quant] #491 prelude_has_type_uint 2 #487 #490
[attach-var-names] #491 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #492 has_type #165 #228
[mk-app] #493 => #446 #492
[mk-app] #494 pattern #492
[mk-quant] #495 prelude_has_type_sint 2 #494 #493
[attach-var-names] #495 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #496 not #446
[mk-app] #497 or #496 #492
[inst-discovered] theory-solving 0x0 basic# ; #493
[mk-app] #498 = #493 #497
[instance] 0x0 #498
[attach-enode] #498 0
[end-of-instance]
[mk-quant] #498 prelude_has_type_sint 2 #494 #497
[attach-var-names] #498 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #499 has_type #165 #236
[mk-app] #500 => #442 #499
[mk-app] #501 pattern #499
[mk-quant] #502 prelude_has_type_float 2 #501 #500
[attach-var-names] #502 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #503 or #489 #499
[inst-discovered] theory-solving 0x0 basic# ; #500
[mk-app] #504 = #500 #503
[instance] 0x0 #504
[attach-enode] #504 0
[end-of-instance]
[mk-quant] #504 prelude_has_type_float 2 #501 #503
[attach-var-names] #504 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #505 has_type #165 #244
[mk-app] #506 => #452 #505
[mk-app] #507 pattern #505
[mk-quant] #508 prelude_has_type_char 1 #507 #506
[attach-var-names] #508 (|x| ; |Int|)
[mk-app] #509 not #452
[mk-app] #510 or #509 #505
[inst-discovered] theory-solving 0x0 basic# ; #506
[mk-app] #511 = #506 #510
[instance] 0x0 #511
[attach-enode] #511 0
[end-of-instance]
[mk-quant] #511 prelude_has_type_char 1 #507 #510
[attach-var-names] #511 (|x| ; |Int|)
[mk-app] #512 <= #336 #186
[mk-app] #513 => #196 #512
[mk-quant] #514 prelude_unbox_int 1 #198 #513
[attach-var-names] #514 (|x| ; |Poly|)
[attach-meaning] #365 arith (- 1)
[mk-app] #515 * #365 #186
[mk-app] #516 >= #186 #336
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #515 = #512 #516
[instance] 0x0 #515
[attach-enode] #515 0
[end-of-instance]
[mk-app] #515 or #200 #516
[mk-app] #517 => #196 #516
[inst-discovered] theory-solving 0x0 basic# ; #517
[mk-app] #518 = #517 #515
[instance] 0x0 #518
[attach-enode] #518 0
[end-of-instance]
[mk-quant] #517 prelude_unbox_int 1 #198 #515
[attach-var-names] #517 (|x| ; |Poly|)
[mk-app] #518 uInv #269 #186
[mk-app] #519 => #204 #518
[mk-quant] #520 prelude_unbox_usize 1 #206 #519
[attach-var-names] #520 (|x| ; |Poly|)
[mk-app] #521 or #208 #518
[inst-discovered] theory-solving 0x0 basic# ; #519
[mk-app] #522 = #519 #521
[instance] 0x0 #522
[attach-enode] #522 0
[end-of-instance]
[mk-quant] #522 prelude_unbox_usize 1 #206 #521
[attach-var-names] #522 (|x| ; |Poly|)
[mk-app] #523 charInv #186
[mk-app] #524 => #245 #523
[mk-quant] #525 prelude_unbox_char 1 #247 #524
[attach-var-names] #525 (|x| ; |Poly|)
[mk-app] #526 or #249 #523
[inst-discovered] theory-solving 0x0 basic# ; #524
[mk-app] #527 = #524 #526
[instance] 0x0 #527
[attach-enode] #527 0
[end-of-instance]
[mk-quant] #527 prelude_unbox_char 1 #247 #526
[attach-var-names] #527 (|x| ; |Poly|)
[mk-app] #528 iInv #269 #186
[mk-app] #529 => #212 #528
[mk-quant] #530 prelude_unbox_isize 1 #214 #529
[attach-var-names] #530 (|x| ; |Poly|)
[mk-app] #531 or #216 #528
[inst-discovered] theory-solving 0x0 basic# ; #529
[mk-app] #532 = #529 #531
[instance] 0x0 #532
[attach-enode] #532 0
[end-of-instance]
[mk-quant] #532 prelude_unbox_isize 1 #214 #531
[attach-var-names] #532 (|x| ; |Poly|)
[mk-app] #533 uInv #219 #186
[mk-app] #534 => #221 #533
[mk-quant] #535 prelude_unbox_uint 2 #223 #534
[attach-var-names] #535 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #536 or #225 #533
[inst-discovered] theory-solving 0x0 basic# ; #534
[mk-app] #537 = #534 #536
[instance] 0x0 #537
[attach-enode] #537 0
[end-of-instance]
[mk-quant] #537 prelude_unbox_uint 2 #223 #536
[attach-var-names] #537 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #538 iInv #219 #186
[mk-app] #539 => #229 #538
[mk-quant] #540 prelude_unbox_sint 2 #231 #539
[attach-var-names] #540 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #541 or #233 #538
[inst-discovered] theory-solving 0x0 basic# ; #539
[mk-app] #542 = #539 #541
[instance] 0x0 #542
[attach-enode] #542 0
[end-of-instance]
[mk-quant] #542 prelude_unbox_sint 2 #231 #541
[attach-var-names] #542 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #543 => #237 #533
[mk-quant] #544 prelude_unbox_float 2 #239 #543
[attach-var-names] #544 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #545 or #241 #533
[inst-discovered] theory-solving 0x0 basic# ; #543
[mk-app] #546 = #543 #545
[instance] 0x0 #546
[attach-enode] #546 0
[end-of-instance]
[mk-quant] #546 prelude_unbox_float 2 #239 #545
[attach-var-names] #546 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #547 Add #219 #122
[mk-app] #548 + #219 #122
[mk-app] #549 = #547 #548
[mk-app] #550 pattern #547
[mk-quant] #551 prelude_add 2 #550 #549
[attach-var-names] #551 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #552 + #122 #219
[inst-discovered] theory-solving 0x0 arith# ; #548
[mk-app] #553 = #548 #552
[instance] 0x0 #553
[attach-enode] #553 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #553 * #365 #122
[attach-meaning] #365 arith (- 1)
[mk-app] #554 * #365 #219
[mk-app] #555 + #553 #554 #547
[attach-meaning] #365 arith (- 1)
[mk-app] #556 * #365 #547
[mk-app] #557 + #122 #219 #556
[mk-app] #553 = #557 #336
[mk-app] #554 = #547 #552
[inst-discovered] theory-solving 0x0 arith# ; #554
[mk-app] #555 = #554 #553
[instance] 0x0 #555
[attach-enode] #555 0
[end-of-instance]
[mk-quant] #552 prelude_add 2 #550 #553
[attach-var-names] #552 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #554 Sub #219 #122
[mk-app] #555 - #219 #122
[mk-app] #558 = #554 #555
[mk-app] #559 pattern #554
[mk-quant] #560 prelude_sub 2 #559 #558
[attach-var-names] #560 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #561 * #365 #122
[mk-app] #562 + #219 #561
[inst-discovered] theory-solving 0x0 arith# ; #555
[mk-app] #563 = #555 #562
[instance] 0x0 #563
[attach-enode] #563 0
[end-of-instance]
[mk-app] #563 + #561 #219
[inst-discovered] theory-solving 0x0 arith# ; #562
[mk-app] #564 = #562 #563
[instance] 0x0 #564
[attach-enode] #564 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #564 * #365 #219
[mk-app] #565 + #122 #564 #554
[mk-app] #566 = #565 #336
[mk-app] #567 = #554 #563
[inst-discovered] theory-solving 0x0 arith# ; #567
[mk-app] #568 = #567 #566
[instance] 0x0 #568
[attach-enode] #568 0
[end-of-instance]
[mk-quant] #567 prelude_sub 2 #559 #566
[attach-var-names] #567 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #561 Mul #219 #122
[mk-app] #563 * #219 #122
[mk-app] #562 = #561 #563
[mk-app] #568 pattern #561
[mk-quant] #569 prelude_mul 2 #568 #562
[attach-var-names] #569 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #570 * #122 #219
[inst-discovered] theory-solving 0x0 arith# ; #563
[mk-app] #571 = #563 #570
[instance] 0x0 #571
[attach-enode] #571 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #571 * #365 #570
[mk-app] #572 + #561 #571
[mk-app] #573 = #572 #336
[mk-app] #574 = #561 #570
[inst-discovered] theory-solving 0x0 arith# ; #574
[mk-app] #575 = #574 #573
[instance] 0x0 #575
[attach-enode] #575 0
[end-of-instance]
[mk-quant] #574 prelude_mul 2 #568 #573
[attach-var-names] #574 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #575 EucDiv #219 #122
[mk-app] #576 div #219 #122
[mk-app] #577 = #575 #576
[mk-app] #578 pattern #575
[mk-quant] #579 prelude_eucdiv 2 #578 #577
[attach-var-names] #579 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #580 * #365 #576
[mk-app] #581 + #575 #580
[mk-app] #582 = #581 #336
[inst-discovered] theory-solving 0x0 arith# ; #577
[mk-app] #583 = #577 #582
[instance] 0x0 #583
[attach-enode] #583 0
[end-of-instance]
[mk-quant] #583 prelude_eucdiv 2 #578 #582
[attach-var-names] #583 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #584 EucMod #219 #122
[mk-app] #585 mod #219 #122
[mk-app] #586 = #584 #585
[mk-app] #587 pattern #584
[mk-quant] #588 prelude_eucmod 2 #587 #586
[attach-var-names] #588 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #589 * #365 #585
[mk-app] #590 + #584 #589
[mk-app] #591 = #590 #336
[inst-discovered] theory-solving 0x0 arith# ; #586
[mk-app] #592 = #586 #591
[instance] 0x0 #592
[attach-enode] #592 0
[end-of-instance]
[mk-quant] #592 prelude_eucmod 2 #587 #591
[attach-var-names] #592 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #593 RAdd #7 #6
[mk-app] #594 + #7 #6
[mk-app] #595 = #593 #594
[mk-app] #596 pattern #593
[mk-quant] #597 prelude_radd 2 #596 #595
[attach-var-names] #597 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #598 + #6 #7
[inst-discovered] theory-solving 0x0 arith# ; #594
[mk-app] #599 = #594 #598
[instance] 0x0 #599
[attach-enode] #599 0
[end-of-instance]
[mk-app] #599 Real
[attach-meaning] #599 arith (- 1)
[mk-app] #600 * #599 #6
[attach-meaning] #599 arith (- 1)
[mk-app] #601 * #599 #7
[mk-app] #602 Real
[attach-meaning] #602 arith 0
[mk-app] #603 + #600 #601 #593
[attach-meaning] #599 arith (- 1)
[mk-app] #604 * #599 #593
[mk-app] #605 + #6 #7 #604
[mk-app] #600 = #605 #602
[mk-app] #601 = #593 #598
[inst-discovered] theory-solving 0x0 arith# ; #601
[mk-app] #603 = #601 #600
[instance] 0x0 #603
[attach-enode] #603 0
[end-of-instance]
[mk-quant] #598 prelude_radd 2 #596 #600
[attach-var-names] #598 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #601 RSub #7 #6
[mk-app] #603 - #7 #6
[mk-app] #606 = #601 #603
[mk-app] #607 pattern #601
[mk-quant] #608 prelude_rsub 2 #607 #606
[attach-var-names] #608 (|y| ; |Real|) (|x| ; |Real|)
[attach-meaning] #599 arith (- 1)
[mk-app] #609 * #599 #6
[mk-app] #610 + #7 #609
[inst-discovered] theory-solving 0x0 arith# ; #603
[mk-app] #611 = #603 #610
[instance] 0x0 #611
[attach-enode] #611 0
[end-of-instance]
[mk-app] #611 + #609 #7
[inst-discovered] theory-solving 0x0 arith# ; #610
[mk-app] #612 = #610 #611
[instance] 0x0 #612
[attach-enode] #612 0
[end-of-instance]
[attach-meaning] #599 arith (- 1)
[mk-app] #612 * #599 #7
[mk-app] #613 + #6 #612 #601
[mk-app] #614 = #613 #602
[mk-app] #615 = #601 #611
[inst-discovered] theory-solving 0x0 arith# ; #615
[mk-app] #616 = #615 #614
[instance] 0x0 #616
[attach-enode] #616 0
[end-of-instance]
[mk-quant] #615 prelude_rsub 2 #607 #614
[attach-var-names] #615 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #609 RMul #7 #6
[mk-app] #611 * #7 #6
[mk-app] #610 = #609 #611
[mk-app] #616 pattern #609
[mk-quant] #617 prelude_rmul 2 #616 #610
[attach-var-names] #617 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #618 * #6 #7
[inst-discovered] theory-solving 0x0 arith# ; #611
[mk-app] #619 = #611 #618
[instance] 0x0 #619
[attach-enode] #619 0
[end-of-instance]
[attach-meaning] #599 arith (- 1)
[mk-app] #619 * #599 #618
[mk-app] #620 + #609 #619
[mk-app] #621 = #620 #602
[mk-app] #622 = #609 #618
[inst-discovered] theory-solving 0x0 arith# ; #622
[mk-app] #623 = #622 #621
[instance] 0x0 #623
[attach-enode] #623 0
[end-of-instance]
[mk-quant] #622 prelude_rmul 2 #616 #621
[attach-var-names] #622 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #623 RDiv #7 #6
[mk-app] #624 / #7 #6
[mk-app] #625 = #623 #624
[mk-app] #626 pattern #623
[mk-quant] #627 prelude_rdiv 2 #626 #625
[attach-var-names] #627 (|y| ; |Real|) (|x| ; |Real|)
[attach-meaning] #599 arith (- 1)
[mk-app] #628 * #599 #624
[mk-app] #629 + #623 #628
[mk-app] #630 = #629 #602
[inst-discovered] theory-solving 0x0 arith# ; #625
[mk-app] #631 = #625 #630
[instance] 0x0 #631
[attach-enode] #631 0
[end-of-instance]
[mk-quant] #631 prelude_rdiv 2 #626 #630
[attach-var-names] #631 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #632 <= #336 #219
[mk-app] #633 and #632 #339
[mk-app] #634 <= #336 #561
[mk-app] #635 => #633 #634
[mk-quant] #636 prelude_mul_nats 2 #568 #635
[attach-var-names] #636 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #365 arith (- 1)
[mk-app] #637 >= #219 #336
[inst-discovered] theory-solving 0x0 arith# ; #632
[mk-app] #638 = #632 #637
[instance] 0x0 #638
[attach-enode] #638 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #638 * #365 #122
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #638 = #339 #348
[instance] 0x0 #638
[attach-enode] #638 0
[end-of-instance]
[mk-app] #638 and #637 #348
[attach-meaning] #365 arith (- 1)
[mk-app] #639 * #365 #561
[mk-app] #640 >= #561 #336
[inst-discovered] theory-solving 0x0 arith# ; #634
[mk-app] #639 = #634 #640
[instance] 0x0 #639
[attach-enode] #639 0
[end-of-instance]
[mk-app] #639 not #638
[mk-app] #641 or #639 #640
[mk-app] #642 => #638 #640
[inst-discovered] theory-solving 0x0 basic# ; #642
[mk-app] #643 = #642 #641
[instance] 0x0 #643
[attach-enode] #643 0
[end-of-instance]
[mk-quant] #642 prelude_mul_nats 2 #568 #641
[attach-var-names] #642 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #643 < #336 #122
[mk-app] #644 and #632 #643
[mk-app] #645 <= #336 #575
[mk-app] #646 <= #575 #219
[mk-app] #647 and #645 #646
[mk-app] #648 => #644 #647
[mk-quant] #649 prelude_div_unsigned_in_bounds 2 #578 #648
[attach-var-names] #649 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #632
[mk-app] #650 = #632 #637
[instance] 0x0 #650
[attach-enode] #650 0
[end-of-instance]
[mk-app] #650 <= #122 #336
[mk-app] #651 not #650
[inst-discovered] theory-solving 0x0 arith# ; #643
[mk-app] #652 = #643 #651
[instance] 0x0 #652
[attach-enode] #652 0
[end-of-instance]
[mk-app] #652 and #637 #651
[attach-meaning] #365 arith (- 1)
[mk-app] #653 * #365 #575
[mk-app] #654 >= #575 #336
[inst-discovered] theory-solving 0x0 arith# ; #645
[mk-app] #653 = #645 #654
[instance] 0x0 #653
[attach-enode] #653 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #653 + #564 #575
[attach-meaning] #365 arith (- 1)
[mk-app] #655 * #365 #575
[mk-app] #656 + #219 #655
[mk-app] #653 >= #656 #336
[inst-discovered] theory-solving 0x0 arith# ; #646
[mk-app] #657 = #646 #653
[instance] 0x0 #657
[attach-enode] #657 0
[end-of-instance]
[mk-app] #657 and #654 #653
[mk-app] #658 not #652
[mk-app] #659 or #658 #657
[mk-app] #660 => #652 #657
[inst-discovered] theory-solving 0x0 basic# ; #660
[mk-app] #661 = #660 #659
[instance] 0x0 #661
[attach-enode] #661 0
[end-of-instance]
[mk-quant] #660 prelude_div_unsigned_in_bounds 2 #578 #659
[attach-var-names] #660 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #661 <= #336 #584
[mk-app] #662 < #584 #122
[mk-app] #663 and #661 #662
[mk-app] #664 => #644 #663
[mk-quant] #665 prelude_mod_unsigned_in_bounds 2 #587 #664
[attach-var-names] #665 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #632
[mk-app] #666 = #632 #637
[instance] 0x0 #666
[attach-enode] #666 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 arith# ; #643
[mk-app] #666 = #643 #651
[instance] 0x0 #666
[attach-enode] #666 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #666 * #365 #584
[mk-app] #667 >= #584 #336
[inst-discovered] theory-solving 0x0 arith# ; #661
[mk-app] #666 = #661 #667
[instance] 0x0 #666
[attach-enode] #666 0
[end-of-instance]
[mk-app] #666 <= #122 #584
[mk-app] #668 not #666
[inst-discovered] theory-solving 0x0 arith# ; #662
[mk-app] #669 = #662 #668
[instance] 0x0 #669
[attach-enode] #669 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #669 * #365 #584
[mk-app] #670 + #122 #669
[mk-app] #671 <= #670 #336
[inst-discovered] theory-solving 0x0 arith# ; #666
[mk-app] #672 = #666 #671
[instance] 0x0 #672
[attach-enode] #672 0
[end-of-instance]
[mk-app] #672 not #671
[mk-app] #673 and #667 #672
[mk-app] #674 or #658 #673
[mk-app] #675 => #652 #673
[inst-discovered] theory-solving 0x0 basic# ; #675
[mk-app] #676 = #675 #674
[instance] 0x0 #676
[attach-enode] #676 0
[end-of-instance]
[mk-quant] #675 prelude_mod_unsigned_in_bounds 2 #587 #674
[attach-var-names] #675 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #666 %I #43
[mk-app] #668 uInv #122 #666
[mk-app] #676 %I #32
[mk-app] #677 uInv #122 #676
[mk-app] #678 and #668 #677
[mk-app] #679 bitxor #43 #32
[mk-app] #680 uInv #122 #679
[mk-app] #681 => #678 #680
[mk-app] #682 uClip #122 #679
[mk-app] #683 pattern #682
[mk-quant] #684 prelude_bit_xor_u_inv 3 #683 #681
[attach-var-names] #684 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #685 not #678
[mk-app] #686 or #685 #680
[inst-discovered] theory-solving 0x0 basic# ; #681
[mk-app] #687 = #681 #686
[instance] 0x0 #687
[attach-enode] #687 0
[end-of-instance]
[mk-quant] #687 prelude_bit_xor_u_inv 3 #683 #686
[attach-var-names] #687 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #688 iInv #122 #666
[mk-app] #689 iInv #122 #676
[mk-app] #690 and #688 #689
[mk-app] #691 iInv #122 #679
[mk-app] #692 => #690 #691
[mk-app] #693 iClip #122 #679
[mk-app] #694 pattern #693
[mk-quant] #695 prelude_bit_xor_i_inv 3 #694 #692
[attach-var-names] #695 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #696 not #690
[mk-app] #697 or #696 #691
[inst-discovered] theory-solving 0x0 basic# ; #692
[mk-app] #698 = #692 #697
[instance] 0x0 #698
[attach-enode] #698 0
[end-of-instance]
[mk-quant] #698 prelude_bit_xor_i_inv 3 #694 #697
[attach-var-names] #698 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #699 bitor #43 #32
[mk-app] #700 uInv #122 #699
[mk-app] #701 => #678 #700
[mk-app] #702 uClip #122 #699
[mk-app] #703 pattern #702
[mk-quant] #704 prelude_bit_or_u_inv 3 #703 #701
[attach-var-names] #704 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #705 or #685 #700
[inst-discovered] theory-solving 0x0 basic# ; #701
[mk-app] #706 = #701 #705
[instance] 0x0 #706
[attach-enode] #706 0
[end-of-instance]
[mk-quant] #706 prelude_bit_or_u_inv 3 #703 #705
[attach-var-names] #706 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #707 iInv #122 #699
[mk-app] #708 => #690 #707
[mk-app] #709 iClip #122 #699
[mk-app] #710 pattern #709
[mk-quant] #711 prelude_bit_or_i_inv 3 #710 #708
[attach-var-names] #711 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #712 or #696 #707
[inst-discovered] theory-solving 0x0 basic# ; #708
[mk-app] #713 = #708 #712
[instance] 0x0 #713
[attach-enode] #713 0
[end-of-instance]
[mk-quant] #713 prelude_bit_or_i_inv 3 #710 #712
[attach-var-names] #713 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #714 bitand #43 #32
[mk-app] #715 uInv #122 #714
[mk-app] #716 => #678 #715
[mk-app] #717 uClip #122 #714
[mk-app] #718 pattern #717
[mk-quant] #719 prelude_bit_and_u_inv 3 #718 #716
[attach-var-names] #719 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #720 or #685 #715
[inst-discovered] theory-solving 0x0 basic# ; #716
[mk-app] #721 = #716 #720
[instance] 0x0 #721
[attach-enode] #721 0
[end-of-instance]
[mk-quant] #721 prelude_bit_and_u_inv 3 #718 #720
[attach-var-names] #721 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #722 iInv #122 #714
[mk-app] #723 => #690 #722
[mk-app] #724 iClip #122 #714
[mk-app] #725 pattern #724
[mk-quant] #726 prelude_bit_and_i_inv 3 #725 #723
[attach-var-names] #726 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #727 or #696 #722
[inst-discovered] theory-solving 0x0 basic# ; #723
[mk-app] #728 = #723 #727
[instance] 0x0 #728
[attach-enode] #728 0
[end-of-instance]
[mk-quant] #728 prelude_bit_and_i_inv 3 #725 #727
[attach-var-names] #728 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #729 <= #336 #676
[mk-app] #730 and #668 #729
[mk-app] #731 bitshr #43 #32
[mk-app] #732 uInv #122 #731
[mk-app] #733 => #730 #732
[mk-app] #734 uClip #122 #731
[mk-app] #735 pattern #734
[mk-quant] #736 prelude_bit_shr_u_inv 3 #735 #733
[attach-var-names] #736 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[attach-meaning] #365 arith (- 1)
[mk-app] #737 * #365 #676
[mk-app] #738 >= #676 #336
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #737 = #729 #738
[instance] 0x0 #737
[attach-enode] #737 0
[end-of-instance]
[mk-app] #737 and #668 #738
[mk-app] #739 not #737
[mk-app] #740 or #739 #732
[mk-app] #741 => #737 #732
[inst-discovered] theory-solving 0x0 basic# ; #741
[mk-app] #742 = #741 #740
[instance] 0x0 #742
[attach-enode] #742 0
[end-of-instance]
[mk-quant] #741 prelude_bit_shr_u_inv 3 #735 #740
[attach-var-names] #741 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #742 and #688 #729
[mk-app] #743 iInv #122 #731
[mk-app] #744 => #742 #743
[mk-app] #745 iClip #122 #731
[mk-app] #746 pattern #745
[mk-quant] #747 prelude_bit_shr_i_inv 3 #746 #744
[attach-var-names] #747 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[attach-meaning] #365 arith (- 1)
[mk-app] #748 * #365 #676
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #748 = #729 #738
[instance] 0x0 #748
[attach-enode] #748 0
[end-of-instance]
[mk-app] #748 and #688 #738
[mk-app] #749 not #748
[mk-app] #750 or #749 #743
[mk-app] #751 => #748 #743
[inst-discovered] theory-solving 0x0 basic# ; #751
[mk-app] #752 = #751 #750
[instance] 0x0 #752
[attach-enode] #752 0
[end-of-instance]
[mk-quant] #751 prelude_bit_shr_i_inv 3 #746 #750
[attach-var-names] #751 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #752 = #122 #336
[mk-app] #753 not #752
[mk-app] #754 singular_mod #219 #122
[mk-app] #755 = #584 #754
[mk-app] #756 => #753 #755
[mk-app] #757 pattern #754
[mk-quant] #758 prelude_singularmod 2 #757 #756
[attach-var-names] #758 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #759 or #752 #755
[inst-discovered] theory-solving 0x0 basic# ; #756
[mk-app] #760 = #756 #759
[instance] 0x0 #760
[attach-enode] #760 0
[end-of-instance]
[mk-quant] #760 prelude_singularmod 2 #757 #759
[attach-var-names] #760 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #761 check_decrease_height #43 #32 #128
[mk-app] #762 height #43
[mk-app] #763 height #32
[mk-app] #764 height_lt #762 #763
[mk-app] #765 = #762 #763
[mk-app] #766 and #765 #128
[mk-app] #767 or #764 #766
[mk-app] #768 = #761 #767
[mk-app] #769 pattern #761
[mk-quant] #770 prelude_check_decrease_height 3 #769 #768
[attach-var-names] #770 (|otherwise| ; |Bool|) (|prev| ; |Poly|) (|cur| ; |Poly|)
[mk-app] #771 I #219
[mk-app] #772 height #771
[mk-app] #773 height #165
[mk-app] #774 height_lt #772 #773
[mk-app] #775 < #219 #122
[mk-app] #776 and #632 #775
[mk-app] #777 = #774 #776
[mk-app] #778 pattern #774
[mk-quant] #779 prelude_check_decrease_int_height 2 #778 #777
[attach-var-names] #779 (|prev| ; |Int|) (|cur| ; |Int|)
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #632
[mk-app] #780 = #632 #637
[instance] 0x0 #780
[attach-enode] #780 0
[end-of-instance]
[mk-app] #780 <= #122 #219
[mk-app] #781 not #780
[inst-discovered] theory-solving 0x0 arith# ; #775
[mk-app] #782 = #775 #781
[instance] 0x0 #782
[attach-enode] #782 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #782 + #122 #564
[mk-app] #783 <= #782 #336
[inst-discovered] theory-solving 0x0 arith# ; #780
[mk-app] #784 = #780 #783
[instance] 0x0 #784
[attach-enode] #784 0
[end-of-instance]
[mk-app] #784 not #783
[mk-app] #785 and #637 #784
[mk-app] #786 = #774 #785
[mk-quant] #787 prelude_check_decrease_int_height 2 #778 #786
[attach-var-names] #787 (|prev| ; |Int|) (|cur| ; |Int|)
[mk-var] #780 1
[mk-var] #781 0
[mk-app] #788 height_lt #780 #781
[mk-app] #789 partial-order #780 #781
[mk-app] #790 = #780 #781
[mk-app] #791 not #790
[mk-app] #792 and #789 #791
[mk-app] #793 = #788 #792
[mk-app] #794 pattern #788
[mk-quant] #795 prelude_height_lt 2 #794 #793
[attach-var-names] #795 (|y| ; |Height|) (|x| ; |Height|)
[mk-app] #796 fuel%vstd!std_specs.num.u8_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #797 fuel%vstd!std_specs.num.u8_specs_tmp.impl&%0.eq_spec.
[mk-app] #798 fuel%vstd!std_specs.num.u8_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #799 fuel%vstd!std_specs.num.u8_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #800 fuel%vstd!std_specs.num.i8_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #801 fuel%vstd!std_specs.num.i8_specs_tmp.impl&%0.eq_spec.
[mk-app] #802 fuel%vstd!std_specs.num.i8_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #803 fuel%vstd!std_specs.num.i8_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #804 fuel%vstd!std_specs.num.u16_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #805 fuel%vstd!std_specs.num.u16_specs_tmp.impl&%0.eq_spec.
[mk-app] #806 fuel%vstd!std_specs.num.u16_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #807 fuel%vstd!std_specs.num.u16_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #808 fuel%vstd!std_specs.num.i16_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #809 fuel%vstd!std_specs.num.i16_specs_tmp.impl&%0.eq_spec.
[mk-app] #810 fuel%vstd!std_specs.num.i16_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #811 fuel%vstd!std_specs.num.i16_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #812 fuel%vstd!std_specs.num.u32_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #813 fuel%vstd!std_specs.num.u32_specs_tmp.impl&%0.eq_spec.
[mk-app] #814 fuel%vstd!std_specs.num.u32_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #815 fuel%vstd!std_specs.num.u32_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #816 fuel%vstd!std_specs.num.i32_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #817 fuel%vstd!std_specs.num.i32_specs_tmp.impl&%0.eq_spec.
[mk-app] #818 fuel%vstd!std_specs.num.i32_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #819 fuel%vstd!std_specs.num.i32_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #820 fuel%vstd!std_specs.num.u64_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #821 fuel%vstd!std_specs.num.u64_specs_tmp.impl&%0.eq_spec.
[mk-app] #822 fuel%vstd!std_specs.num.u64_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #823 fuel%vstd!std_specs.num.u64_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #824 fuel%vstd!std_specs.num.i64_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #825 fuel%vstd!std_specs.num.i64_specs_tmp.impl&%0.eq_spec.
[mk-app] #826 fuel%vstd!std_specs.num.i64_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #827 fuel%vstd!std_specs.num.i64_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #828 fuel%vstd!std_specs.num.u128_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #829 fuel%vstd!std_specs.num.u128_specs_tmp.impl&%0.eq_spec.
[mk-app] #830 fuel%vstd!std_specs.num.u128_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #831 fuel%vstd!std_specs.num.u128_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #832 fuel%vstd!std_specs.num.i128_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #833 fuel%vstd!std_specs.num.i128_specs_tmp.impl&%0.eq_spec.
[mk-app] #834 fuel%vstd!std_specs.num.i128_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #835 fuel%vstd!std_specs.num.i128_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #836 fuel%vstd!std_specs.num.usize_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #837 fuel%vstd!std_specs.num.usize_specs_tmp.impl&%0.eq_spec.
[mk-app] #838 fuel%vstd!std_specs.num.usize_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #839 fuel%vstd!std_specs.num.usize_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #840 fuel%vstd!std_specs.num.isize_specs_tmp.impl&%0.obeys_eq_spec.
[mk-app] #841 fuel%vstd!std_specs.num.isize_specs_tmp.impl&%0.eq_spec.
[mk-app] #842 fuel%vstd!std_specs.num.isize_specs_tmp.impl&%1.obeys_partial_cmp_spec.
[mk-app] #843 fuel%vstd!std_specs.num.isize_specs_tmp.impl&%1.partial_cmp_spec.
[mk-app] #844 fuel%vstd!arithmetic.div_mod.rust_div.
[mk-app] #845 fuel%vstd!std_specs.array.impl&%0.obeys_eq_spec.
[mk-app] #846 fuel%vstd!std_specs.array.impl&%0.eq_spec.
[mk-app] #847 fuel%vstd!std_specs.array.impl&%1.obeys_eq_spec.
[mk-app] #848 fuel%vstd!std_specs.array.impl&%1.eq_spec.
[mk-app] #849 fuel%vstd!std_specs.array.impl&%2.obeys_eq_spec.
[mk-app] #850 fuel%vstd!std_specs.array.impl&%2.eq_spec.
[mk-app] #851 fuel%vstd!std_specs.array.impl&%3.obeys_eq_spec.
[mk-app] #852 fuel%vstd!std_specs.array.impl&%3.eq_spec.
[mk-app] #853 fuel%vstd!std_specs.array.impl&%4.obeys_eq_spec.
[mk-app] #854 fuel%vstd!std_specs.array.impl&%4.eq_spec.
[mk-app] #855 fuel%vstd!std_specs.cmp.impl&%2.obeys_eq_spec.
[mk-app] #856 fuel%vstd!std_specs.cmp.impl&%2.eq_spec.
[mk-app] #857 fuel%vstd!std_specs.cmp.impl&%3.obeys_eq_spec.
[mk-app] #858 fuel%vstd!std_specs.cmp.impl&%3.eq_spec.
[mk-app] #859 fuel%vstd!std_specs.cmp.impl&%4.obeys_partial_cmp_spec.
[mk-app] #860 fuel%vstd!std_specs.cmp.impl&%4.partial_cmp_spec.
[mk-app] #861 fuel%vstd!std_specs.cmp.impl&%9.obeys_eq_spec.
[mk-app] #862 fuel%vstd!std_specs.cmp.impl&%9.eq_spec.
[mk-app] #863 fuel%vstd!std_specs.cmp.impl&%10.obeys_partial_cmp_spec.
[mk-app] #864 fuel%vstd!std_specs.cmp.impl&%10.partial_cmp_spec.
[mk-app] #865 fuel%vstd!std_specs.cmp.impl&%12.obeys_eq_spec.
[mk-app] #866 fuel%vstd!std_specs.cmp.impl&%12.eq_spec.
[mk-app] #867 fuel%vstd!std_specs.cmp.impl&%13.obeys_partial_cmp_spec.
[mk-app] #868 fuel%vstd!std_specs.cmp.impl&%13.partial_cmp_spec.
[mk-app] #869 fuel%vstd!std_specs.iter.rev_postcondition.
[mk-app] #870 fuel%vstd!std_specs.iter.impl&%0.obeys_prophetic_iter_laws.
[mk-app] #871 fuel%vstd!std_specs.iter.impl&%0.peek.
[mk-app] #872 fuel%vstd!std_specs.iter.impl&%1.peek_back.
[mk-app] #873 fuel%vstd!std_specs.iter.impl&%2.obeys_prophetic_iter_laws.
[mk-app] #874 fuel%vstd!std_specs.iter.impl&%2.remaining.
[mk-app] #875 fuel%vstd!std_specs.iter.impl&%2.will_return_none.
[mk-app] #876 fuel%vstd!std_specs.iter.impl&%2.decrease.
[mk-app] #877 fuel%vstd!std_specs.iter.impl&%2.peek.
[mk-app] #878 fuel%vstd!std_specs.iter.impl&%11.seq.
[mk-app] #879 fuel%vstd!std_specs.iter.impl&%11.index.
[mk-app] #880 fuel%vstd!std_specs.iter.impl&%11.wf.
[mk-app] #881 fuel%vstd!std_specs.iter.trigger_peek_implications.
[mk-app] #882 fuel%vstd!std_specs.ops.impl&%22.obeys_neg_spec.
[mk-app] #883 fuel%vstd!std_specs.ops.impl&%22.neg_req.
[mk-app] #884 fuel%vstd!std_specs.ops.impl&%22.neg_spec.
[mk-app] #885 fuel%vstd!std_specs.ops.impl&%23.obeys_neg_spec.
[mk-app] #886 fuel%vstd!std_specs.ops.impl&%23.neg_req.
[mk-app] #887 fuel%vstd!std_specs.ops.impl&%23.neg_spec.
[mk-app] #888 fuel%vstd!std_specs.ops.impl&%24.obeys_neg_spec.
[mk-app] #889 fuel%vstd!std_specs.ops.impl&%24.neg_req.
[mk-app] #890 fuel%vstd!std_specs.ops.impl&%24.neg_spec.
[mk-app] #891 fuel%vstd!std_specs.ops.impl&%25.obeys_neg_spec.
[mk-app] #892 fuel%vstd!std_specs.ops.impl&%25.neg_req.
[mk-app] #893 fuel%vstd!std_specs.ops.impl&%25.neg_spec.
[mk-app] #894 fuel%vstd!std_specs.ops.impl&%26.obeys_neg_spec.
[mk-app] #895 fuel%vstd!std_specs.ops.impl&%26.neg_req.
[mk-app] #896 fuel%vstd!std_specs.ops.impl&%26.neg_spec.
[mk-app] #897 fuel%vstd!std_specs.ops.impl&%27.obeys_neg_spec.
[mk-app] #898 fuel%vstd!std_specs.ops.impl&%27.neg_req.
[mk-app] #899 fuel%vstd!std_specs.ops.impl&%27.neg_spec.
[mk-app] #900 fuel%vstd!std_specs.ops.impl&%41.obeys_add_spec.
[mk-app] #901 fuel%vstd!std_specs.ops.impl&%41.add_req.
[mk-app] #902 fuel%vstd!std_specs.ops.impl&%41.add_spec.
[mk-app] #903 fuel%vstd!std_specs.ops.impl&%42.obeys_add_spec.
[mk-app] #904 fuel%vstd!std_specs.ops.impl&%42.add_req.
[mk-app] #905 fuel%vstd!std_specs.ops.impl&%42.add_spec.
[mk-app] #906 fuel%vstd!std_specs.ops.impl&%43.obeys_add_spec.
[mk-app] #907 fuel%vstd!std_specs.ops.impl&%43.add_req.
[mk-app] #908 fuel%vstd!std_specs.ops.impl&%43.add_spec.
[mk-app] #909 fuel%vstd!std_specs.ops.impl&%44.obeys_add_spec.
[mk-app] #910 fuel%vstd!std_specs.ops.impl&%44.add_req.
[mk-app] #911 fuel%vstd!std_specs.ops.impl&%44.add_spec.
[mk-app] #912 fuel%vstd!std_specs.ops.impl&%45.obeys_add_spec.
[mk-app] #913 fuel%vstd!std_specs.ops.impl&%45.add_req.
[mk-app] #914 fuel%vstd!std_specs.ops.impl&%45.add_spec.
[mk-app] #915 fuel%vstd!std_specs.ops.impl&%46.obeys_add_spec.
[mk-app] #916 fuel%vstd!std_specs.ops.impl&%46.add_req.
[mk-app] #917 fuel%vstd!std_specs.ops.impl&%46.add_spec.
[mk-app] #918 fuel%vstd!std_specs.ops.impl&%47.obeys_add_spec.
[mk-app] #919 fuel%vstd!std_specs.ops.impl&%47.add_req.
[mk-app] #920 fuel%vstd!std_specs.ops.impl&%47.add_spec.
[mk-app] #921 fuel%vstd!std_specs.ops.impl&%48.obeys_add_spec.
[mk-app] #922 fuel%vstd!std_specs.ops.impl&%48.add_req.
[mk-app] #923 fuel%vstd!std_specs.ops.impl&%48.add_spec.
[mk-app] #924 fuel%vstd!std_specs.ops.impl&%49.obeys_add_spec.
[mk-app] #925 fuel%vstd!std_specs.ops.impl&%49.add_req.
[mk-app] #926 fuel%vstd!std_specs.ops.impl&%49.add_spec.
[mk-app] #927 fuel%vstd!std_specs.ops.impl&%50.obeys_add_spec.
[mk-app] #928 fuel%vstd!std_specs.ops.impl&%50.add_req.
[mk-app] #929 fuel%vstd!std_specs.ops.impl&%50.add_spec.
[mk-app] #930 fuel%vstd!std_specs.ops.impl&%51.obeys_add_spec.
[mk-app] #931 fuel%vstd!std_specs.ops.impl&%51.add_req.
[mk-app] #932 fuel%vstd!std_specs.ops.impl&%51.add_spec.
[mk-app] #933 fuel%vstd!std_specs.ops.impl&%52.obeys_add_spec.
[mk-app] #934 fuel%vstd!std_specs.ops.impl&%52.add_req.
[mk-app] #935 fuel%vstd!std_specs.ops.impl&%52.add_spec.
[mk-app] #936 fuel%vstd!std_specs.ops.impl&%53.obeys_add_assign_spec.
[mk-app] #937 fuel%vstd!std_specs.ops.impl&%53.add_assign_req.
[mk-app] #938 fuel%vstd!std_specs.ops.impl&%53.add_assign_spec.
[mk-app] #939 fuel%vstd!std_specs.ops.impl&%54.obeys_add_assign_spec.
[mk-app] #940 fuel%vstd!std_specs.ops.impl&%54.add_assign_req.
[mk-app] #941 fuel%vstd!std_specs.ops.impl&%54.add_assign_spec.
[mk-app] #942 fuel%vstd!std_specs.ops.impl&%55.obeys_add_assign_spec.
[mk-app] #943 fuel%vstd!std_specs.ops.impl&%55.add_assign_req.
[mk-app] #944 fuel%vstd!std_specs.ops.impl&%55.add_assign_spec.
[mk-app] #945 fuel%vstd!std_specs.ops.impl&%56.obeys_add_assign_spec.
[mk-app] #946 fuel%vstd!std_specs.ops.impl&%56.add_assign_req.
[mk-app] #947 fuel%vstd!std_specs.ops.impl&%56.add_assign_spec.
[mk-app] #948 fuel%vstd!std_specs.ops.impl&%57.obeys_add_assign_spec.
[mk-app] #949 fuel%vstd!std_specs.ops.impl&%57.add_assign_req.
[mk-app] #950 fuel%vstd!std_specs.ops.impl&%57.add_assign_spec.
[mk-app] #951 fuel%vstd!std_specs.ops.impl&%58.obeys_add_assign_spec.
[mk-app] #952 fuel%vstd!std_specs.ops.impl&%58.add_assign_req.
[mk-app] #953 fuel%vstd!std_specs.ops.impl&%58.add_assign_spec.
[mk-app] #954 fuel%vstd!std_specs.ops.impl&%59.obeys_add_assign_spec.
[mk-app] #955 fuel%vstd!std_specs.ops.impl&%59.add_assign_req.
[mk-app] #956 fuel%vstd!std_specs.ops.impl&%59.add_assign_spec.
[mk-app] #957 fuel%vstd!std_specs.ops.impl&%60.obeys_add_assign_spec.
[mk-app] #958 fuel%vstd!std_specs.ops.impl&%60.add_assign_req.
[mk-app] #959 fuel%vstd!std_specs.ops.impl&%60.add_assign_spec.
[mk-app] #960 fuel%vstd!std_specs.ops.impl&%61.obeys_add_assign_spec.
[mk-app] #961 fuel%vstd!std_specs.ops.impl&%61.add_assign_req.
[mk-app] #962 fuel%vstd!std_specs.ops.impl&%61.add_assign_spec.
[mk-app] #963 fuel%vstd!std_specs.ops.impl&%62.obeys_add_assign_spec.
[mk-app] #964 fuel%vstd!std_specs.ops.impl&%62.add_assign_req.
[mk-app] #965 fuel%vstd!std_specs.ops.impl&%62.add_assign_spec.
[mk-app] #966 fuel%vstd!std_specs.ops.impl&%63.obeys_add_assign_spec.
[mk-app] #967 fuel%vstd!std_specs.ops.impl&%63.add_assign_req.
[mk-app] #968 fuel%vstd!std_specs.ops.impl&%63.add_assign_spec.
[mk-app] #969 fuel%vstd!std_specs.ops.impl&%64.obeys_add_assign_spec.
[mk-app] #970 fuel%vstd!std_specs.ops.impl&%64.add_assign_req.
[mk-app] #971 fuel%vstd!std_specs.ops.impl&%64.add_assign_spec.
[mk-app] #972 fuel%vstd!std_specs.ops.impl&%65.obeys_sub_spec.
[mk-app] #973 fuel%vstd!std_specs.ops.impl&%65.sub_req.
[mk-app] #974 fuel%vstd!std_specs.ops.impl&%65.sub_spec.
[mk-app] #975 fuel%vstd!std_specs.ops.impl&%66.obeys_sub_spec.
[mk-app] #976 fuel%vstd!std_specs.ops.impl&%66.sub_req.
[mk-app] #977 fuel%vstd!std_specs.ops.impl&%66.sub_spec.
[mk-app] #978 fuel%vstd!std_specs.ops.impl&%67.obeys_sub_spec.
[mk-app] #979 fuel%vstd!std_specs.ops.impl&%67.sub_req.
[mk-app] #980 fuel%vstd!std_specs.ops.impl&%67.sub_spec.
[mk-app] #981 fuel%vstd!std_specs.ops.impl&%68.obeys_sub_spec.
[mk-app] #982 fuel%vstd!std_specs.ops.impl&%68.sub_req.
[mk-app] #983 fuel%vstd!std_specs.ops.impl&%68.sub_spec.
[mk-app] #984 fuel%vstd!std_specs.ops.impl&%69.obeys_sub_spec.
[mk-app] #985 fuel%vstd!std_specs.ops.impl&%69.sub_req.
[mk-app] #986 fuel%vstd!std_specs.ops.impl&%69.sub_spec.
[mk-app] #987 fuel%vstd!std_specs.ops.impl&%70.obeys_sub_spec.
[mk-app] #988 fuel%vstd!std_specs.ops.impl&%70.sub_req.
[mk-app] #989 fuel%vstd!std_specs.ops.impl&%70.sub_spec.
[mk-app] #990 fuel%vstd!std_specs.ops.impl&%71.obeys_sub_spec.
[mk-app] #991 fuel%vstd!std_specs.ops.impl&%71.sub_req.
[mk-app] #992 fuel%vstd!std_specs.ops.impl&%71.sub_spec.
[mk-app] #993 fuel%vstd!std_specs.ops.impl&%72.obeys_sub_spec.
[mk-app] #994 fuel%vstd!std_specs.ops.impl&%72.sub_req.
[mk-app] #995 fuel%vstd!std_specs.ops.impl&%72.sub_spec.
[mk-app] #996 fuel%vstd!std_specs.ops.impl&%73.obeys_sub_spec.
[mk-app] #997 fuel%vstd!std_specs.ops.impl&%73.sub_req.
[mk-app] #998 fuel%vstd!std_specs.ops.impl&%73.sub_spec.
[mk-app] #999 fuel%vstd!std_specs.ops.impl&%74.obeys_sub_spec.
[mk-app] #1000 fuel%vstd!std_specs.ops.impl&%74.sub_req.
[mk-app] #1001 fuel%vstd!std_specs.ops.impl&%74.sub_spec.
[mk-app] #1002 fuel%vstd!std_specs.ops.impl&%75.obeys_sub_spec.
[mk-app] #1003 fuel%vstd!std_specs.ops.impl&%75.sub_req.
[mk-app] #1004 fuel%vstd!std_specs.ops.impl&%75.sub_spec.
[mk-app] #1005 fuel%vstd!std_specs.ops.impl&%76.obeys_sub_spec.
[mk-app] #1006 fuel%vstd!std_specs.ops.impl&%76.sub_req.
[mk-app] #1007 fuel%vstd!std_specs.ops.impl&%76.sub_spec.
[mk-app] #1008 fuel%vstd!std_specs.ops.impl&%77.obeys_sub_assign_spec.
[mk-app] #1009 fuel%vstd!std_specs.ops.impl&%77.sub_assign_req.
[mk-app] #1010 fuel%vstd!std_specs.ops.impl&%77.sub_assign_spec.
[mk-app] #1011 fuel%vstd!std_specs.ops.impl&%78.obeys_sub_assign_spec.
[mk-app] #1012 fuel%vstd!std_specs.ops.impl&%78.sub_assign_req.
[mk-app] #1013 fuel%vstd!std_specs.ops.impl&%78.sub_assign_spec.
[mk-app] #1014 fuel%vstd!std_specs.ops.impl&%79.obeys_sub_assign_spec.
[mk-app] #1015 fuel%vstd!std_specs.ops.impl&%79.sub_assign_req.
[mk-app] #1016 fuel%vstd!std_specs.ops.impl&%79.sub_assign_spec.
[mk-app] #1017 fuel%vstd!std_specs.ops.impl&%80.obeys_sub_assign_spec.
[mk-app] #1018 fuel%vstd!std_specs.ops.impl&%80.sub_assign_req.
[mk-app] #1019 fuel%vstd!std_specs.ops.impl&%80.sub_assign_spec.
[mk-app] #1020 fuel%vstd!std_specs.ops.impl&%81.obeys_sub_assign_spec.
[mk-app] #1021 fuel%vstd!std_specs.ops.impl&%81.sub_assign_req.
[mk-app] #1022 fuel%vstd!std_specs.ops.impl&%81.sub_assign_spec.
[mk-app] #1023 fuel%vstd!std_specs.ops.impl&%82.obeys_sub_assign_spec.
[mk-app] #1024 fuel%vstd!std_specs.ops.impl&%82.sub_assign_req.
[mk-app] #1025 fuel%vstd!std_specs.ops.impl&%82.sub_assign_spec.
[mk-app] #1026 fuel%vstd!std_specs.ops.impl&%83.obeys_sub_assign_spec.
[mk-app] #1027 fuel%vstd!std_specs.ops.impl&%83.sub_assign_req.
[mk-app] #1028 fuel%vstd!std_specs.ops.impl&%83.sub_assign_spec.
[mk-app] #1029 fuel%vstd!std_specs.ops.impl&%84.obeys_sub_assign_spec.
[mk-app] #1030 fuel%vstd!std_specs.ops.impl&%84.sub_assign_req.
[mk-app] #1031 fuel%vstd!std_specs.ops.impl&%84.sub_assign_spec.
[mk-app] #1032 fuel%vstd!std_specs.ops.impl&%85.obeys_sub_assign_spec.
[mk-app] #1033 fuel%vstd!std_specs.ops.impl&%85.sub_assign_req.
[mk-app] #1034 fuel%vstd!std_specs.ops.impl&%85.sub_assign_spec.
[mk-app] #1035 fuel%vstd!std_specs.ops.impl&%86.obeys_sub_assign_spec.
[mk-app] #1036 fuel%vstd!std_specs.ops.impl&%86.sub_assign_req.
[mk-app] #1037 fuel%vstd!std_specs.ops.impl&%86.sub_assign_spec.
[mk-app] #1038 fuel%vstd!std_specs.ops.impl&%87.obeys_sub_assign_spec.
[mk-app] #1039 fuel%vstd!std_specs.ops.impl&%87.sub_assign_req.
[mk-app] #1040 fuel%vstd!std_specs.ops.impl&%87.sub_assign_spec.
[mk-app] #1041 fuel%vstd!std_specs.ops.impl&%88.obeys_sub_assign_spec.
[mk-app] #1042 fuel%vstd!std_specs.ops.impl&%88.sub_assign_req.
[mk-app] #1043 fuel%vstd!std_specs.ops.impl&%88.sub_assign_spec.
[mk-app] #1044 fuel%vstd!std_specs.ops.impl&%89.obeys_mul_spec.
[mk-app] #1045 fuel%vstd!std_specs.ops.impl&%89.mul_req.
[mk-app] #1046 fuel%vstd!std_specs.ops.impl&%89.mul_spec.
[mk-app] #1047 fuel%vstd!std_specs.ops.impl&%90.obeys_mul_spec.
[mk-app] #1048 fuel%vstd!std_specs.ops.impl&%90.mul_req.
[mk-app] #1049 fuel%vstd!std_specs.ops.impl&%90.mul_spec.
[mk-app] #1050 fuel%vstd!std_specs.ops.impl&%91.obeys_mul_spec.
[mk-app] #1051 fuel%vstd!std_specs.ops.impl&%91.mul_req.
[mk-app] #1052 fuel%vstd!std_specs.ops.impl&%91.mul_spec.
[mk-app] #1053 fuel%vstd!std_specs.ops.impl&%92.obeys_mul_spec.
[mk-app] #1054 fuel%vstd!std_specs.ops.impl&%92.mul_req.
[mk-app] #1055 fuel%vstd!std_specs.ops.impl&%92.mul_spec.
[mk-app] #1056 fuel%vstd!std_specs.ops.impl&%93.obeys_mul_spec.
[mk-app] #1057 fuel%vstd!std_specs.ops.impl&%93.mul_req.
[mk-app] #1058 fuel%vstd!std_specs.ops.impl&%93.mul_spec.
[mk-app] #1059 fuel%vstd!std_specs.ops.impl&%94.obeys_mul_spec.
[mk-app] #1060 fuel%vstd!std_specs.ops.impl&%94.mul_req.
[mk-app] #1061 fuel%vstd!std_specs.ops.impl&%94.mul_spec.
[mk-app] #1062 fuel%vstd!std_specs.ops.impl&%95.obeys_mul_spec.
[mk-app] #1063 fuel%vstd!std_specs.ops.impl&%95.mul_req.
[mk-app] #1064 fuel%vstd!std_specs.ops.impl&%95.mul_spec.
[mk-app] #1065 fuel%vstd!std_specs.ops.impl&%96.obeys_mul_spec.
[mk-app] #1066 fuel%vstd!std_specs.ops.impl&%96.mul_req.
[mk-app] #1067 fuel%vstd!std_specs.ops.impl&%96.mul_spec.
[mk-app] #1068 fuel%vstd!std_specs.ops.impl&%97.obeys_mul_spec.
[mk-app] #1069 fuel%vstd!std_specs.ops.impl&%97.mul_req.
[mk-app] #1070 fuel%vstd!std_specs.ops.impl&%97.mul_spec.
[mk-app] #1071 fuel%vstd!std_specs.ops.impl&%98.obeys_mul_spec.
[mk-app] #1072 fuel%vstd!std_specs.ops.impl&%98.mul_req.
[mk-app] #1073 fuel%vstd!std_specs.ops.impl&%98.mul_spec.
[mk-app] #1074 fuel%vstd!std_specs.ops.impl&%99.obeys_mul_spec.
[mk-app] #1075 fuel%vstd!std_specs.ops.impl&%99.mul_req.
[mk-app] #1076 fuel%vstd!std_specs.ops.impl&%99.mul_spec.
[mk-app] #1077 fuel%vstd!std_specs.ops.impl&%100.obeys_mul_spec.
[mk-app] #1078 fuel%vstd!std_specs.ops.impl&%100.mul_req.
[mk-app] #1079 fuel%vstd!std_specs.ops.impl&%100.mul_spec.
[mk-app] #1080 fuel%vstd!std_specs.ops.impl&%113.obeys_div_spec.
[mk-app] #1081 fuel%vstd!std_specs.ops.impl&%113.div_req.
[mk-app] #1082 fuel%vstd!std_specs.ops.impl&%113.div_spec.
[mk-app] #1083 fuel%vstd!std_specs.ops.impl&%114.obeys_div_spec.
[mk-app] #1084 fuel%vstd!std_specs.ops.impl&%114.div_req.
[mk-app] #1085 fuel%vstd!std_specs.ops.impl&%114.div_spec.
[mk-app] #1086 fuel%vstd!std_specs.ops.impl&%115.obeys_div_spec.
[mk-app] #1087 fuel%vstd!std_specs.ops.impl&%115.div_req.
[mk-app] #1088 fuel%vstd!std_specs.ops.impl&%115.div_spec.
[mk-app] #1089 fuel%vstd!std_specs.ops.impl&%116.obeys_div_spec.
[mk-app] #1090 fuel%vstd!std_specs.ops.impl&%116.div_req.
[mk-app] #1091 fuel%vstd!std_specs.ops.impl&%116.div_spec.
[mk-app] #1092 fuel%vstd!std_specs.ops.impl&%117.obeys_div_spec.
[mk-app] #1093 fuel%vstd!std_specs.ops.impl&%117.div_req.
[mk-app] #1094 fuel%vstd!std_specs.ops.impl&%117.div_spec.
[mk-app] #1095 fuel%vstd!std_specs.ops.impl&%118.obeys_div_spec.
[mk-app] #1096 fuel%vstd!std_specs.ops.impl&%118.div_req.
[mk-app] #1097 fuel%vstd!std_specs.ops.impl&%118.div_spec.
[mk-app] #1098 fuel%vstd!std_specs.ops.impl&%125.obeys_div_spec.
[mk-app] #1099 fuel%vstd!std_specs.ops.impl&%125.div_req.
[mk-app] #1100 fuel%vstd!std_specs.ops.impl&%125.div_spec.
[mk-app] #1101 fuel%vstd!std_specs.ops.impl&%126.obeys_div_spec.
[mk-app] #1102 fuel%vstd!std_specs.ops.impl&%126.div_req.
[mk-app] #1103 fuel%vstd!std_specs.ops.impl&%126.div_spec.
[mk-app] #1104 fuel%vstd!std_specs.ops.impl&%127.obeys_div_spec.
[mk-app] #1105 fuel%vstd!std_specs.ops.impl&%127.div_req.
[mk-app] #1106 fuel%vstd!std_specs.ops.impl&%127.div_spec.
[mk-app] #1107 fuel%vstd!std_specs.ops.impl&%128.obeys_div_spec.
[mk-app] #1108 fuel%vstd!std_specs.ops.impl&%128.div_req.
[mk-app] #1109 fuel%vstd!std_specs.ops.impl&%128.div_spec.
[mk-app] #1110 fuel%vstd!std_specs.ops.impl&%129.obeys_div_spec.
[mk-app] #1111 fuel%vstd!std_specs.ops.impl&%129.div_req.
[mk-app] #1112 fuel%vstd!std_specs.ops.impl&%129.div_spec.
[mk-app] #1113 fuel%vstd!std_specs.ops.impl&%130.obeys_div_spec.
[mk-app] #1114 fuel%vstd!std_specs.ops.impl&%130.div_req.
[mk-app] #1115 fuel%vstd!std_specs.ops.impl&%130.div_spec.
[mk-app] #1116 fuel%vstd!std_specs.option.impl&%0.arrow_0.
[mk-app] #1117 fuel%vstd!std_specs.option.spec_unwrap.
[mk-app] #1118 fuel%vstd!std_specs.option.spec_unwrap_or.
[mk-app] #1119 fuel%vstd!std_specs.option.impl&%1.obeys_eq_spec.
[mk-app] #1120 fuel%vstd!std_specs.option.impl&%1.eq_spec.
[mk-app] #1121 fuel%vstd!std_specs.option.impl&%2.obeys_partial_cmp_spec.
[mk-app] #1122 fuel%vstd!std_specs.option.impl&%2.partial_cmp_spec.
[mk-app] #1123 fuel%vstd!std_specs.range.impl&%3.obeys_prophetic_iter_laws.
[mk-app] #1124 fuel%vstd!std_specs.range.impl&%3.remaining.
[mk-app] #1125 fuel%vstd!std_specs.range.impl&%3.decrease.
[mk-app] #1126 fuel%vstd!std_specs.range.impl&%3.peek.
[mk-app] #1127 fuel%vstd!std_specs.range.impl&%4.obeys_prophetic_iter_laws.
[mk-app] #1128 fuel%vstd!std_specs.range.impl&%4.remaining.
[mk-app] #1129 fuel%vstd!std_specs.range.impl&%4.decrease.
[mk-app] #1130 fuel%vstd!std_specs.range.impl&%4.peek.
[mk-app] #1131 fuel%vstd!std_specs.range.impl&%19.spec_is_lt.
[mk-app] #1132 fuel%vstd!std_specs.range.impl&%19.spec_steps_between_int.
[mk-app] #1133 fuel%vstd!std_specs.range.impl&%19.spec_forward_checked.
[mk-app] #1134 fuel%vstd!std_specs.range.impl&%19.spec_forward_checked_int.
[mk-app] #1135 fuel%vstd!std_specs.range.axiom_spec_range_next_u8.
[mk-app] #1136 fuel%vstd!std_specs.range.impl&%20.spec_is_lt.
[mk-app] #1137 fuel%vstd!std_specs.range.impl&%20.spec_steps_between_int.
[mk-app] #1138 fuel%vstd!std_specs.range.impl&%20.spec_forward_checked.
[mk-app] #1139 fuel%vstd!std_specs.range.impl&%20.spec_forward_checked_int.
[mk-app] #1140 fuel%vstd!std_specs.range.axiom_spec_range_next_u16.
[mk-app] #1141 fuel%vstd!std_specs.range.impl&%21.spec_is_lt.
[mk-app] #1142 fuel%vstd!std_specs.range.impl&%21.spec_steps_between_int.
[mk-app] #1143 fuel%vstd!std_specs.range.impl&%21.spec_forward_checked.
[mk-app] #1144 fuel%vstd!std_specs.range.impl&%21.spec_forward_checked_int.
[mk-app] #1145 fuel%vstd!std_specs.range.axiom_spec_range_next_u32.
[mk-app] #1146 fuel%vstd!std_specs.range.impl&%22.spec_is_lt.
[mk-app] #1147 fuel%vstd!std_specs.range.impl&%22.spec_steps_between_int.
[mk-app] #1148 fuel%vstd!std_specs.range.impl&%22.spec_forward_checked.
[mk-app] #1149 fuel%vstd!std_specs.range.impl&%22.spec_forward_checked_int.
[mk-app] #1150 fuel%vstd!std_specs.range.axiom_spec_range_next_u64.
[mk-app] #1151 fuel%vstd!std_specs.range.impl&%23.spec_is_lt.
[mk-app] #1152 fuel%vstd!std_specs.range.impl&%23.spec_steps_between_int.
[mk-app] #1153 fuel%vstd!std_specs.range.impl&%23.spec_forward_checked.
[mk-app] #1154 fuel%vstd!std_specs.range.impl&%23.spec_forward_checked_int.
[mk-app] #1155 fuel%vstd!std_specs.range.axiom_spec_range_next_u128.
[mk-app] #1156 fuel%vstd!std_specs.range.impl&%24.spec_is_lt.
[mk-app] #1157 fuel%vstd!std_specs.range.impl&%24.spec_steps_between_int.
[mk-app] #1158 fuel%vstd!std_specs.range.impl&%24.spec_forward_checked.
[mk-app] #1159 fuel%vstd!std_specs.range.impl&%24.spec_forward_checked_int.
[mk-app] #1160 fuel%vstd!std_specs.range.axiom_spec_range_next_usize.
[mk-app] #1161 fuel%vstd!std_specs.range.impl&%25.spec_is_lt.
[mk-app] #1162 fuel%vstd!std_specs.range.impl&%25.spec_steps_between_int.
[mk-app] #1163 fuel%vstd!std_specs.range.impl&%25.spec_forward_checked.
[mk-app] #1164 fuel%vstd!std_specs.range.impl&%25.spec_forward_checked_int.
[mk-app] #1165 fuel%vstd!std_specs.range.axiom_spec_range_next_i8.
[mk-app] #1166 fuel%vstd!std_specs.range.impl&%26.spec_is_lt.
[mk-app] #1167 fuel%vstd!std_specs.range.impl&%26.spec_steps_between_int.
[mk-app] #1168 fuel%vstd!std_specs.range.impl&%26.spec_forward_checked.
[mk-app] #1169 fuel%vstd!std_specs.range.impl&%26.spec_forward_checked_int.
[mk-app] #1170 fuel%vstd!std_specs.range.axiom_spec_range_next_i16.
[mk-app] #1171 fuel%vstd!std_specs.range.impl&%27.spec_is_lt.
[mk-app] #1172 fuel%vstd!std_specs.range.impl&%27.spec_steps_between_int.
[mk-app] #1173 fuel%vstd!std_specs.range.impl&%27.spec_forward_checked.
[mk-app] #1174 fuel%vstd!std_specs.range.impl&%27.spec_forward_checked_int.
[mk-app] #1175 fuel%vstd!std_specs.range.axiom_spec_range_next_i32.
[mk-app] #1176 fuel%vstd!std_specs.range.impl&%28.spec_is_lt.
[mk-app] #1177 fuel%vstd!std_specs.range.impl&%28.spec_steps_between_int.
[mk-app] #1178 fuel%vstd!std_specs.range.impl&%28.spec_forward_checked.
[mk-app] #1179 fuel%vstd!std_specs.range.impl&%28.spec_forward_checked_int.
[mk-app] #1180 fuel%vstd!std_specs.range.axiom_spec_range_next_i64.
[mk-app] #1181 fuel%vstd!std_specs.range.impl&%29.spec_is_lt.
[mk-app] #1182 fuel%vstd!std_specs.range.impl&%29.spec_steps_between_int.
[mk-app] #1183 fuel%vstd!std_specs.range.impl&%29.spec_forward_checked.
[mk-app] #1184 fuel%vstd!std_specs.range.impl&%29.spec_forward_checked_int.
[mk-app] #1185 fuel%vstd!std_specs.range.axiom_spec_range_next_i128.
[mk-app] #1186 fuel%vstd!std_specs.range.impl&%30.spec_is_lt.
[mk-app] #1187 fuel%vstd!std_specs.range.impl&%30.spec_steps_between_int.
[mk-app] #1188 fuel%vstd!std_specs.range.impl&%30.spec_forward_checked.
[mk-app] #1189 fuel%vstd!std_specs.range.impl&%30.spec_forward_checked_int.
[mk-app] #1190 fuel%vstd!std_specs.range.axiom_spec_range_next_isize.
[mk-app] #1191 fuel%vstd!std_specs.slice.impl&%9.obeys_eq_spec.
[mk-app] #1192 fuel%vstd!std_specs.slice.impl&%9.eq_spec.
[mk-app] #1193 fuel%vstd!std_specs.slice.impl&%10.obeys_prophetic_iter_laws.
[mk-app] #1194 fuel%vstd!std_specs.slice.impl&%10.peek.
[mk-app] #1195 fuel%vstd!std_specs.slice.impl&%11.obeys_prophetic_iter_laws.
[mk-app] #1196 fuel%vstd!std_specs.slice.impl&%11.will_return_none.
[mk-app] #1197 fuel%vstd!std_specs.slice.impl&%11.peek.
[mk-app] #1198 fuel%vstd!std_specs.vec.impl&%0.spec_index.
[mk-app] #1199 fuel%vstd!std_specs.vec.axiom_spec_len.
[mk-app] #1200 fuel%vstd!std_specs.vec.axiom_vec_index_decreases.
[mk-app] #1201 fuel%vstd!std_specs.vec.impl&%2.obeys_eq_spec.
[mk-app] #1202 fuel%vstd!std_specs.vec.impl&%2.eq_spec.
[mk-app] #1203 fuel%vstd!std_specs.vec.impl&%3.obeys_prophetic_iter_laws.
[mk-app] #1204 fuel%vstd!std_specs.vec.impl&%3.peek.
[mk-app] #1205 fuel%vstd!std_specs.vec.impl&%4.peek_back.
[mk-app] #1206 fuel%vstd!std_specs.vec.axiom_vec_has_resolved.
[mk-app] #1207 fuel%vstd!std_specs.vec.axiom_vec_decreases_to_view.
[mk-app] #1208 fuel%vstd!std_specs.nonzero.impl&%1.is_zero.
[mk-app] #1209 fuel%vstd!std_specs.nonzero.impl&%2.is_zero.
[mk-app] #1210 fuel%vstd!std_specs.nonzero.impl&%3.is_zero.
[mk-app] #1211 fuel%vstd!std_specs.nonzero.impl&%4.is_zero.
[mk-app] #1212 fuel%vstd!std_specs.nonzero.impl&%5.is_zero.
[mk-app] #1213 fuel%vstd!std_specs.nonzero.impl&%6.is_zero.
[mk-app] #1214 fuel%vstd!std_specs.nonzero.impl&%7.is_zero.
[mk-app] #1215 fuel%vstd!std_specs.nonzero.impl&%8.is_zero.
[mk-app] #1216 fuel%vstd!std_specs.nonzero.impl&%9.is_zero.
[mk-app] #1217 fuel%vstd!std_specs.nonzero.impl&%10.is_zero.
[mk-app] #1218 fuel%vstd!std_specs.nonzero.axiom_nonzero_is_not_zero.
[mk-app] #1219 fuel%vstd!std_specs.nonzero.nonzero_spec_get.
[mk-app] #1220 fuel%vstd!std_specs.nonzero.impl&%12.obeys_eq_spec.
[mk-app] #1221 fuel%vstd!std_specs.nonzero.impl&%12.eq_spec.
[mk-app] #1222 fuel%vstd!std_specs.nonzero.impl&%13.obeys_partial_cmp_spec.
[mk-app] #1223 fuel%vstd!std_specs.nonzero.impl&%13.partial_cmp_spec.
[mk-app] #1224 fuel%vstd!array.array_view.
[mk-app] #1225 fuel%vstd!array.impl&%0.view.
[mk-app] #1226 fuel%vstd!array.impl&%2.spec_index.
[mk-app] #1227 fuel%vstd!array.lemma_array_index.
[mk-app] #1228 fuel%vstd!array.array_len_matches_n.
[mk-app] #1229 fuel%vstd!array.axiom_array_ext_equal.
[mk-app] #1230 fuel%vstd!array.axiom_array_has_resolved.
[mk-app] #1231 fuel%vstd!array.axiom_array_decreases_to_seq.
[mk-app] #1232 fuel%vstd!array.lemma_array_index_decreases.
[mk-app] #1233 fuel%vstd!function.axiom_fn_mut_call_requires.
[mk-app] #1234 fuel%vstd!function.axiom_fn_mut_call_ensures.
[mk-app] #1235 fuel%vstd!pervasive.impl&%0.requires.
[mk-app] #1236 fuel%vstd!pervasive.impl&%0.ensures.
[mk-app] #1237 fuel%vstd!raw_ptr.impl&%3.view.
[mk-app] #1238 fuel%vstd!raw_ptr.ptrs_mut_eq.
[mk-app] #1239 fuel%vstd!raw_ptr.ptrs_mut_eq_sized.
[mk-app] #1240 fuel%vstd!seq.impl&%2.spec_index.
[mk-app] #1241 fuel%vstd!seq.lemma_seq_index_decreases.
[mk-app] #1242 fuel%vstd!seq.lemma_seq_subrange_decreases.
[mk-app] #1243 fuel%vstd!seq.lemma_seq_empty.
[mk-app] #1244 fuel%vstd!seq.lemma_seq_new_len.
[mk-app] #1245 fuel%vstd!seq.lemma_seq_new_index.
[mk-app] #1246 fuel%vstd!seq.lemma_seq_push_len.
[mk-app] #1247 fuel%vstd!seq.lemma_seq_push_index_same.
[mk-app] #1248 fuel%vstd!seq.lemma_seq_push_index_different.
[mk-app] #1249 fuel%vstd!seq.lemma_seq_update_len.
[mk-app] #1250 fuel%vstd!seq.lemma_seq_update_same.
[mk-app] #1251 fuel%vstd!seq.lemma_seq_update_different.
[mk-app] #1252 fuel%vstd!seq.lemma_seq_ext_equal.
[mk-app] #1253 fuel%vstd!seq.lemma_seq_ext_equal_deep.
[mk-app] #1254 fuel%vstd!seq.lemma_seq_subrange_len.
[mk-app] #1255 fuel%vstd!seq.lemma_seq_subrange_index.
[mk-app] #1256 fuel%vstd!seq.lemma_seq_two_subranges_index.
[mk-app] #1257 fuel%vstd!seq_lib.impl&%0.as_ref.
[mk-app] #1258 fuel%vstd!seq_lib.impl&%0.drop_first.
[mk-app] #1259 fuel%vstd!seq_lib.impl&%0.reverse.
[mk-app] #1260 fuel%vstd!seq_lib.impl&%1.unref.
[mk-app] #1261 fuel%vstd!slice.impl&%2.spec_index.
[mk-app] #1262 fuel%vstd!slice.axiom_spec_len.
[mk-app] #1263 fuel%vstd!slice.len%returns_clause_autospec.
[mk-app] #1264 fuel%vstd!slice.axiom_slice_ext_equal.
[mk-app] #1265 fuel%vstd!slice.axiom_spec_slice_update.
[mk-app] #1266 fuel%vstd!slice.axiom_spec_slice_index.
[mk-app] #1267 fuel%vstd!slice.axiom_slice_has_resolved.
[mk-app] #1268 fuel%vstd!slice.axiom_slice_decreases_to_seq.
[mk-app] #1269 fuel%vstd!slice.lemma_slice_index_decreases.
[mk-app] #1270 fuel%vstd!view.impl&%0.view.
[mk-app] #1271 fuel%vstd!view.impl&%2.view.
[mk-app] #1272 fuel%vstd!view.impl&%4.view.
[mk-app] #1273 fuel%vstd!view.impl&%6.view.
[mk-app] #1274 fuel%vstd!view.impl&%14.view.
[mk-app] #1275 fuel%vstd!view.impl&%16.view.
[mk-app] #1276 fuel%vstd!view.impl&%18.view.
[mk-app] #1277 fuel%vstd!view.impl&%20.view.
[mk-app] #1278 fuel%vstd!view.impl&%22.view.
[mk-app] #1279 fuel%vstd!view.impl&%24.view.
[mk-app] #1280 fuel%vstd!view.impl&%26.view.
[mk-app] #1281 fuel%vstd!view.impl&%28.view.
[mk-app] #1282 fuel%vstd!view.impl&%30.view.
[mk-app] #1283 fuel%vstd!view.impl&%32.view.
[mk-app] #1284 fuel%vstd!view.impl&%34.view.
[mk-app] #1285 fuel%vstd!view.impl&%36.view.
[mk-app] #1286 fuel%vstd!view.impl&%38.view.
[mk-app] #1287 fuel%vstd!view.impl&%40.view.
[mk-app] #1288 fuel%vstd!view.impl&%42.view.
[mk-app] #1289 fuel%vstd!view.impl&%46.view.
[mk-app] #1290 fuel%vstd!view.impl&%48.view.
[mk-app] #1291 fuel%g1!g.laws_hold.
[mk-app] #1292 fuel%g1!g.ix.
[mk-app] #1293 fuel%g1!g.mx.
[mk-app] #1294 fuel%g1!g.is_mx.
[mk-app] #1295 fuel%g1!g.dot.
[mk-app] #1296 fuel%g1!g.mmul.
[mk-app] #1297 fuel%g1!g.mtr.
[mk-app] #1298 fuel%g1!g.madd.
[mk-app] #1299 fuel%g1!g.msub.
[mk-app] #1300 fuel%g1!g.mscale.
[mk-app] #1301 fuel%g1!g.frame.
[mk-app] #1302 fuel%g1!g.ix_inj.
[mk-app] #1303 fuel%g1!g.ix_bound.
[mk-app] #1304 fuel%g1!g.idx_succ.
[mk-app] #1305 fuel%g1!g.cdot.
[mk-app] #1306 fuel%g1!g.pchol.
[mk-app] #1307 fuel%g1!g.lower.
[mk-app] #1308 fuel%g1!g.is_chol.
[mk-app] #1309 fuel%g1!g.has_chol.
[mk-app] #1310 fuel%g1!g.chol_sum.
[mk-app] #1311 fuel%vstd!array.group_array_axioms.
[mk-app] #1312 fuel%vstd!function.group_function_axioms.
[mk-app] #1313 fuel%vstd!imap.group_imap_lemmas.
[mk-app] #1314 fuel%vstd!iset.group_iset_lemmas.
[mk-app] #1315 fuel%vstd!laws_cmp.group_laws_cmp.
[mk-app] #1316 fuel%vstd!laws_eq.bool_laws.group_laws_eq.
[mk-app] #1317 fuel%vstd!laws_eq.u8_laws.group_laws_eq.
[mk-app] #1318 fuel%vstd!laws_eq.i8_laws.group_laws_eq.
[mk-app] #1319 fuel%vstd!laws_eq.u16_laws.group_laws_eq.
[mk-app] #1320 fuel%vstd!laws_eq.i16_laws.group_laws_eq.
[mk-app] #1321 fuel%vstd!laws_eq.u32_laws.group_laws_eq.
[mk-app] #1322 fuel%vstd!laws_eq.i32_laws.group_laws_eq.
[mk-app] #1323 fuel%vstd!laws_eq.u64_laws.group_laws_eq.
[mk-app] #1324 fuel%vstd!laws_eq.i64_laws.group_laws_eq.
[mk-app] #1325 fuel%vstd!laws_eq.u128_laws.group_laws_eq.
[mk-app] #1326 fuel%vstd!laws_eq.i128_laws.group_laws_eq.
[mk-app] #1327 fuel%vstd!laws_eq.usize_laws.group_laws_eq.
[mk-app] #1328 fuel%vstd!laws_eq.isize_laws.group_laws_eq.
[mk-app] #1329 fuel%vstd!laws_eq.tuple_1_laws.group_laws_eq.
[mk-app] #1330 fuel%vstd!laws_eq.tuple_2_laws.group_laws_eq.
[mk-app] #1331 fuel%vstd!laws_eq.tuple_3_laws.group_laws_eq.
[mk-app] #1332 fuel%vstd!laws_eq.tuple_4_laws.group_laws_eq.
[mk-app] #1333 fuel%vstd!laws_eq.tuple_5_laws.group_laws_eq.
[mk-app] #1334 fuel%vstd!laws_eq.tuple_6_laws.group_laws_eq.
[mk-app] #1335 fuel%vstd!laws_eq.tuple_7_laws.group_laws_eq.
[mk-app] #1336 fuel%vstd!laws_eq.tuple_8_laws.group_laws_eq.
[mk-app] #1337 fuel%vstd!laws_eq.tuple_9_laws.group_laws_eq.
[mk-app] #1338 fuel%vstd!laws_eq.tuple_10_laws.group_laws_eq.
[mk-app] #1339 fuel%vstd!laws_eq.tuple_11_laws.group_laws_eq.
[mk-app] #1340 fuel%vstd!laws_eq.tuple_12_laws.group_laws_eq.
[mk-app] #1341 fuel%vstd!laws_eq.group_laws_eq.
[mk-app] #1342 fuel%vstd!layout.group_align_properties.
[mk-app] #1343 fuel%vstd!layout.group_layout_axioms.
[mk-app] #1344 fuel%vstd!map.group_map_lemmas.
[mk-app] #1345 fuel%vstd!multiset.group_multiset_axioms.
[mk-app] #1346 fuel%vstd!mut_ref.group_mut_ref_axioms.
[mk-app] #1347 fuel%vstd!raw_ptr.group_raw_ptr_axioms.
[mk-app] #1348 fuel%vstd!seq.group_seq_lemmas.
[mk-app] #1349 fuel%vstd!seq_lib.group_filter_ensures.
[mk-app] #1350 fuel%vstd!seq_lib.group_seq_lib_default.
[mk-app] #1351 fuel%vstd!set.group_set_lemmas.
[mk-app] #1352 fuel%vstd!set_lib.group_set_lib_default.
[mk-app] #1353 fuel%vstd!slice.group_slice_axioms.
[mk-app] #1354 fuel%vstd!string.group_string_axioms.
[mk-app] #1355 fuel%vstd!std_specs.bits.group_bits_axioms.
[mk-app] #1356 fuel%vstd!std_specs.control_flow.group_control_flow_axioms.
[mk-app] #1357 fuel%vstd!std_specs.fmt.group_fmt_axioms.
[mk-app] #1358 fuel%vstd!std_specs.iter.group_iter_axioms.
[mk-app] #1359 fuel%vstd!std_specs.manually_drop.group_manually_drop_axioms.
[mk-app] #1360 fuel%vstd!std_specs.btree.group_btree_axioms.
[mk-app] #1361 fuel%vstd!std_specs.hash.group_hash_axioms.
[mk-app] #1362 fuel%vstd!std_specs.range.group_range_axioms.
[mk-app] #1363 fuel%vstd!std_specs.vec.group_vec_axioms.
[mk-app] #1364 fuel%vstd!std_specs.vecdeque.group_vec_dequeue_axioms.
[mk-app] #1365 fuel%vstd!std_specs.nonzero.group_nonzero_axioms.
[mk-app] #1366 fuel%vstd!group_vstd_default.
[mk-app] #1367 distinct #796 #797 #798 #799 #800 #801 #802 #803 #804 #805 #806 #807 #808 #809 #810 #811 #812 #813 #814 #815 #816 #817 #818 #819 #820 #821 #822 #823 #824 #825 #826 #827 #828 #829 #830 #831 #832 #833 #834 #835 #836 #837 #838 #839 #840 #841 #842 #843 #844 #845 #846 #847 #848 #849 #850 #851 #852 #853 #854 #855 #856 #857 #858 #859 #860 #861 #862 #863 #864 #865 #866 #867 #868 #869 #870 #871 #872 #873 #874 #875 #876 #877 #878 #879 #880 #881 #882 #883 #884 #885 #886 #887 #888 #889 #890 #891 #892 #893 #894 #895 #896 #897 #898 #899 #900 #901 #902 #903 #904 #905 #906 #907 #908 #909 #910 #911 #912 #913 #914 #915 #916 #917 #918 #919 #920 #921 #922 #923 #924 #925 #926 #927 #928 #929 #930 #931 #932 #933 #934 #935 #936 #937 #938 #939 #940 #941 #942 #943 #944 #945 #946 #947 #948 #949 #950 #951 #952 #953 #954 #955 #956 #957 #958 #959 #960 #961 #962 #963 #964 #965 #966 #967 #968 #969 #970 #971 #972 #973 #974 #975 #976 #977 #978 #979 #980 #981 #982 #983 #984 #985 #986 #987 #988 #989 #990 #991 #992 #993 #994 #995 #996 #997 #998 #999 #1000 #1001 #1002 #1003 #1004 #1005 #1006 #1007 #1008 #1009 #1010 #1011 #1012 #1013 #1014 #1015 #1016 #1017 #1018 #1019 #1020 #1021 #1022 #1023 #1024 #1025 #1026 #1027 #1028 #1029 #1030 #1031 #1032 #1033 #1034 #1035 #1036 #1037 #1038 #1039 #1040 #1041 #1042 #1043 #1044 #1045 #1046 #1047 #1048 #1049 #1050 #1051 #1052 #1053 #1054 #1055 #1056 #1057 #1058 #1059 #1060 #1061 #1062 #1063 #1064 #1065 #1066 #1067 #1068 #1069 #1070 #1071 #1072 #1073 #1074 #1075 #1076 #1077 #1078 #1079 #1080 #1081 #1082 #1083 #1084 #1085 #1086 #1087 #1088 #1089 #1090 #1091 #1092 #1093 #1094 #1095 #1096 #1097 #1098 #1099 #1100 #1101 #1102 #1103 #1104 #1105 #1106 #1107 #1108 #1109 #1110 #1111 #1112 #1113 #1114 #1115 #1116 #1117 #1118 #1119 #1120 #1121 #1122 #1123 #1124 #1125 #1126 #1127 #1128 #1129 #1130 #1131 #1132 #1133 #1134 #1135 #1136 #1137 #1138 #1139 #1140 #1141 #1142 #1143 #1144 #1145 #1146 #1147 #1148 #1149 #1150 #1151 #1152 #1153 #1154 #1155 #1156 #1157 #1158 #1159 #1160 #1161 #1162 #1163 #1164 #1165 #1166 #1167 #1168 #1169 #1170 #1171 #1172 #1173 #1174 #1175 #1176 #1177 #1178 #1179 #1180 #1181 #1182 #1183 #1184 #1185 #1186 #1187 #1188 #1189 #1190 #1191 #1192 #1193 #1194 #1195 #1196 #1197 #1198 #1199 #1200 #1201 #1202 #1203 #1204 #1205 #1206 #1207 #1208 #1209 #1210 #1211 #1212 #1213 #1214 #1215 #1216 #1217 #1218 #1219 #1220 #1221 #1222 #1223 #1224 #1225 #1226 #1227 #1228 #1229 #1230 #1231 #1232 #1233 #1234 #1235 #1236 #1237 #1238 #1239 #1240 #1241 #1242 #1243 #1244 #1245 #1246 #1247 #1248 #1249 #1250 #1251 #1252 #1253 #1254 #1255 #1256 #1257 #1258 #1259 #1260 #1261 #1262 #1263 #1264 #1265 #1266 #1267 #1268 #1269 #1270 #1271 #1272 #1273 #1274 #1275 #1276 #1277 #1278 #1279 #1280 #1281 #1282 #1283 #1284 #1285 #1286 #1287 #1288 #1289 #1290 #1291 #1292 #1293 #1294 #1295 #1296 #1297 #1298 #1299 #1300 #1301 #1302 #1303 #1304 #1305 #1306 #1307 #1308 #1309 #1310 #1311 #1312 #1313 #1314 #1315 #1316 #1317 #1318 #1319 #1320 #1321 #1322 #1323 #1324 #1325 #1326 #1327 #1328 #1329 #1330 #1331 #1332 #1333 #1334 #1335 #1336 #1337 #1338 #1339 #1340 #1341 #1342 #1343 #1344 #1345 #1346 #1347 #1348 #1349 #1350 #1351 #1352 #1353 #1354 #1355 #1356 #1357 #1358 #1359 #1360 #1361 #1362 #1363 #1364 #1365 #1366
[mk-app] #1368 fuel_bool_default #1311
[mk-app] #1369 fuel_bool_default #1228
[mk-app] #1370 fuel_bool_default #1227
[mk-app] #1371 fuel_bool_default #1229
[mk-app] #1372 fuel_bool_default #1230
[mk-app] #1373 fuel_bool_default #1231
[mk-app] #1374 fuel_bool_default #1232
[mk-app] #1375 and #1369 #1370 #1371 #1372 #1373 #1374
[mk-app] #1376 => #1368 #1375
[mk-app] #1377 not #1368
[mk-app] #1378 or #1377 #1375
[inst-discovered] theory-solving 0x0 basic# ; #1376
[mk-app] #1379 = #1376 #1378
[instance] 0x0 #1379
[attach-enode] #1379 0
[end-of-instance]
[mk-app] #1379 fuel_bool_default #1312
[mk-app] #1380 fuel_bool_default #1233
[mk-app] #1381 fuel_bool_default #1234
[mk-app] #1382 and #1380 #1381
[mk-app] #1383 => #1379 #1382
[mk-app] #1384 not #1379
[mk-app] #1385 or #1384 #1382
[inst-discovered] theory-solving 0x0 basic# ; #1383
[mk-app] #1386 = #1383 #1385
[instance] 0x0 #1386
[attach-enode] #1386 0
[end-of-instance]
[mk-app] #1386 fuel_bool_default #1341
[mk-app] #1387 fuel_bool_default #1316
[mk-app] #1388 fuel_bool_default #1317
[mk-app] #1389 fuel_bool_default #1318
[mk-app] #1390 fuel_bool_default #1319
[mk-app] #1391 fuel_bool_default #1320
[mk-app] #1392 fuel_bool_default #1321
[mk-app] #1393 fuel_bool_default #1322
[mk-app] #1394 fuel_bool_default #1323
[mk-app] #1395 fuel_bool_default #1324
[mk-app] #1396 fuel_bool_default #1325
[mk-app] #1397 fuel_bool_default #1326
[mk-app] #1398 fuel_bool_default #1327
[mk-app] #1399 fuel_bool_default #1328
[mk-app] #1400 fuel_bool_default #1329
[mk-app] #1401 fuel_bool_default #1330
[mk-app] #1402 fuel_bool_default #1331
[mk-app] #1403 fuel_bool_default #1332
[mk-app] #1404 fuel_bool_default #1333
[mk-app] #1405 fuel_bool_default #1334
[mk-app] #1406 fuel_bool_default #1335
[mk-app] #1407 fuel_bool_default #1336
[mk-app] #1408 fuel_bool_default #1337
[mk-app] #1409 fuel_bool_default #1338
[mk-app] #1410 fuel_bool_default #1339
[mk-app] #1411 fuel_bool_default #1340
[mk-app] #1412 and #1387 #1388 #1389 #1390 #1391 #1392 #1393 #1394 #1395 #1396 #1397 #1398 #1399 #1400 #1401 #1402 #1403 #1404 #1405 #1406 #1407 #1408 #1409 #1410 #1411
[mk-app] #1413 => #1386 #1412
[mk-app] #1414 not #1386
[mk-app] #1415 or #1414 #1412
[inst-discovered] theory-solving 0x0 basic# ; #1413
[mk-app] #1416 = #1413 #1415
[instance] 0x0 #1416
[attach-enode] #1416 0
[end-of-instance]
[mk-app] #1416 fuel_bool_default #1343
[mk-app] #1417 fuel_bool_default #1342
[mk-app] #1418 => #1416 #1417
[mk-app] #1419 not #1416
[mk-app] #1420 or #1419 #1417
[inst-discovered] theory-solving 0x0 basic# ; #1418
[mk-app] #1421 = #1418 #1420
[instance] 0x0 #1421
[attach-enode] #1421 0
[end-of-instance]
[mk-app] #1421 fuel_bool_default #1347
[mk-app] #1422 fuel_bool_default #1238
[mk-app] #1423 fuel_bool_default #1239
[mk-app] #1424 and #1422 #1423
[mk-app] #1425 => #1421 #1424
[mk-app] #1426 not #1421
[mk-app] #1427 or #1426 #1424
[inst-discovered] theory-solving 0x0 basic# ; #1425
[mk-app] #1428 = #1425 #1427
[instance] 0x0 #1428
[attach-enode] #1428 0
[end-of-instance]
[mk-app] #1428 fuel_bool_default #1348
[mk-app] #1429 fuel_bool_default #1241
[mk-app] #1430 fuel_bool_default #1242
[mk-app] #1431 fuel_bool_default #1243
[mk-app] #1432 fuel_bool_default #1244
[mk-app] #1433 fuel_bool_default #1245
[mk-app] #1434 fuel_bool_default #1246
[mk-app] #1435 fuel_bool_default #1247
[mk-app] #1436 fuel_bool_default #1248
[mk-app] #1437 fuel_bool_default #1249
[mk-app] #1438 fuel_bool_default #1250
[mk-app] #1439 fuel_bool_default #1251
[mk-app] #1440 fuel_bool_default #1252
[mk-app] #1441 fuel_bool_default #1253
[mk-app] #1442 fuel_bool_default #1254
[mk-app] #1443 fuel_bool_default #1255
[mk-app] #1444 fuel_bool_default #1256
[mk-app] #1445 and #1429 #1430 #1431 #1432 #1433 #1434 #1435 #1436 #1437 #1438 #1439 #1440 #1441 #1442 #1443 #1444
[mk-app] #1446 => #1428 #1445
[mk-app] #1447 not #1428
[mk-app] #1448 or #1447 #1445
[inst-discovered] theory-solving 0x0 basic# ; #1446
[mk-app] #1449 = #1446 #1448
[instance] 0x0 #1449
[attach-enode] #1449 0
[end-of-instance]
[mk-app] #1449 fuel_bool_default #1350
[mk-app] #1450 fuel_bool_default #1349
[mk-app] #1451 => #1449 #1450
[mk-app] #1452 not #1449
[mk-app] #1453 or #1452 #1450
[inst-discovered] theory-solving 0x0 basic# ; #1451
[mk-app] #1454 = #1451 #1453
[instance] 0x0 #1454
[attach-enode] #1454 0
[end-of-instance]
[mk-app] #1454 fuel_bool_default #1353
[mk-app] #1455 fuel_bool_default #1262
[mk-app] #1456 fuel_bool_default #1264
[mk-app] #1457 fuel_bool_default #1265
[mk-app] #1458 fuel_bool_default #1266
[mk-app] #1459 fuel_bool_default #1267
[mk-app] #1460 fuel_bool_default #1268
[mk-app] #1461 fuel_bool_default #1269
[mk-app] #1462 and #1455 #1456 #1457 #1458 #1459 #1460 #1461
[mk-app] #1463 => #1454 #1462
[mk-app] #1464 not #1454
[mk-app] #1465 or #1464 #1462
[inst-discovered] theory-solving 0x0 basic# ; #1463
[mk-app] #1466 = #1463 #1465
[instance] 0x0 #1466
[attach-enode] #1466 0
[end-of-instance]
[mk-app] #1466 fuel_bool_default #1358
[mk-app] #1467 fuel_bool_default #869
[mk-app] #1468 => #1466 #1467
[mk-app] #1469 not #1466
[mk-app] #1470 or #1469 #1467
[inst-discovered] theory-solving 0x0 basic# ; #1468
[mk-app] #1471 = #1468 #1470
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[mk-app] #1471 fuel_bool_default #1362
[mk-app] #1472 fuel_bool_default #1135
[mk-app] #1473 fuel_bool_default #1140
[mk-app] #1474 fuel_bool_default #1145
[mk-app] #1475 fuel_bool_default #1150
[mk-app] #1476 fuel_bool_default #1155
[mk-app] #1477 fuel_bool_default #1160
[mk-app] #1478 fuel_bool_default #1165
[mk-app] #1479 fuel_bool_default #1170
[mk-app] #1480 fuel_bool_default #1175
[mk-app] #1481 fuel_bool_default #1180
[mk-app] #1482 fuel_bool_default #1185
[mk-app] #1483 fuel_bool_default #1190
[mk-app] #1484 and #1472 #1473 #1474 #1475 #1476 #1477 #1478 #1479 #1480 #1481 #1482 #1483
[mk-app] #1485 => #1471 #1484
[mk-app] #1486 not #1471
[mk-app] #1487 or #1486 #1484
[inst-discovered] theory-solving 0x0 basic# ; #1485
[mk-app] #1488 = #1485 #1487
[instance] 0x0 #1488
[attach-enode] #1488 0
[end-of-instance]
[mk-app] #1488 fuel_bool_default #1363
[mk-app] #1489 fuel_bool_default #1199
[mk-app] #1490 fuel_bool_default #1200
[mk-app] #1491 fuel_bool_default #1206
[mk-app] #1492 fuel_bool_default #1207
[mk-app] #1493 and #1489 #1490 #1491 #1492
[mk-app] #1494 => #1488 #1493
[mk-app] #1495 not #1488
[mk-app] #1496 or #1495 #1493
[inst-discovered] theory-solving 0x0 basic# ; #1494
[mk-app] #1497 = #1494 #1496
[instance] 0x0 #1497
[attach-enode] #1497 0
[end-of-instance]
[mk-app] #1497 fuel_bool_default #1365
[mk-app] #1498 fuel_bool_default #1218
[mk-app] #1499 => #1497 #1498
[mk-app] #1500 not #1497
[mk-app] #1501 or #1500 #1498
[inst-discovered] theory-solving 0x0 basic# ; #1499
[mk-app] #1502 = #1499 #1501
[instance] 0x0 #1502
[attach-enode] #1502 0
[end-of-instance]
[mk-app] #1502 fuel_bool_default #1366
[mk-app] #1503 fuel_bool_default #1344
[mk-app] #1504 fuel_bool_default #1351
[mk-app] #1505 fuel_bool_default #1313
[mk-app] #1506 fuel_bool_default #1314
[mk-app] #1507 fuel_bool_default #1352
[mk-app] #1508 fuel_bool_default #1345
[mk-app] #1509 fuel_bool_default #1315
[mk-app] #1510 fuel_bool_default #1354
[mk-app] #1511 fuel_bool_default #1346
[mk-app] #1512 fuel_bool_default #1355
[mk-app] #1513 fuel_bool_default #1356
[mk-app] #1514 fuel_bool_default #1357
[mk-app] #1515 fuel_bool_default #1359
[mk-app] #1516 fuel_bool_default #1364
[mk-app] #1517 fuel_bool_default #1361
[mk-app] #1518 fuel_bool_default #1360
[mk-app] #1519 and #1428 #1449 #1503 #1504 #1505 #1506 #1507 #1508 #1379 #1386 #1509 #1454 #1368 #1510 #1421 #1416 #1511 #1471 #1512 #1513 #1514 #1515 #1466 #1488 #1516 #1517 #1518 #1497
[mk-app] #1520 => #1502 #1519
[mk-app] #1521 not #1502
[mk-app] #1522 or #1521 #1519
[inst-discovered] theory-solving 0x0 basic# ; #1520
[mk-app] #1523 = #1520 #1522
[instance] 0x0 #1523
[attach-enode] #1523 0
[end-of-instance]
[mk-app] #1523 fuel_bool_default #1302
[mk-app] #1524 fuel_bool_default #1303
[mk-app] #1525 fuel_bool_default #1304
[mk-app] #1526 and #1502 #1523 #1524 #1525
[mk-app] #1527 pointee_metadata% #78
[mk-app] #1528 TYPE%tuple%0.
[mk-app] #1529 = #1527 #1528
[mk-app] #1530 => #79 #1529
[mk-app] #1531 pattern #1527
[mk-quant] #1532 prelude_project_pointee_metadata_sized 1 #1531 #1530
[attach-var-names] #1532 (|d| ; |Dcr|)
[mk-app] #1533 or #85 #1529
[inst-discovered] theory-solving 0x0 basic# ; #1530
[mk-app] #1534 = #1530 #1533
[instance] 0x0 #1534
[attach-enode] #1534 0
[end-of-instance]
[mk-quant] #1534 prelude_project_pointee_metadata_sized 1 #1531 #1533
[attach-var-names] #1534 (|d| ; |Dcr|)
[mk-app] #1535 pointee_metadata%% #78
[mk-app] #1536 = #1535 #120
[mk-app] #1537 => #79 #1536
[mk-app] #1538 pattern #1535
[mk-quant] #1539 prelude_project_pointee_metadata_decoration_sized 1 #1538 #1537
[attach-var-names] #1539 (|d| ; |Dcr|)
[mk-app] #1540 or #85 #1536
[inst-discovered] theory-solving 0x0 basic# ; #1537
[mk-app] #1541 = #1537 #1540
[instance] 0x0 #1541
[attach-enode] #1541 0
[end-of-instance]
[mk-quant] #1541 prelude_project_pointee_metadata_decoration_sized 1 #1538 #1540
[attach-var-names] #1541 (|d| ; |Dcr|)
[mk-app] #1542 $slice
[mk-app] #1543 pointee_metadata% #1542
[mk-app] #1544 = #1543 #203
[mk-app] #1545 pointee_metadata%% #1542
[mk-app] #1546 = #1545 #120
[mk-app] #1547 pointee_metadata% #80
[mk-app] #1548 = #1547 #1527
[mk-app] #1549 pattern #1547
[mk-quant] #1550 prelude_project_pointee_metadata_decorate_struct_inherit 1 #1549 #1548
[attach-var-names] #1550 (|d| ; |Dcr|)
[mk-app] #1551 pointee_metadata%% #80
[mk-app] #1552 = #1551 #1535
[mk-app] #1553 pattern #1551
[mk-quant] #1554 prelude_project_pointee_metadata_decoration_decorate_struct_inherit 1 #1553 #1552
[attach-var-names] #1554 (|d| ; |Dcr|)
[mk-var] datatype#10 0
[mk-app] datatype#11 core!option.Option./Some datatype#10
[mk-app] datatype#12 pattern datatype#11
[mk-app] datatype#13 core!option.Option./Some/?0 datatype#11
[mk-app] datatype#14 = datatype#10 datatype#13
[mk-quant] datatype#15 constructor_accessor_axiom 1 datatype#12 datatype#14
[attach-var-names] datatype#15 (;Poly)
[mk-var] datatype#16 0
[mk-var] datatype#17 1
[mk-var] datatype#18 2
[mk-var] datatype#19 3
[mk-app] datatype#20 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper datatype#16 datatype#17 datatype#18 datatype#19
[mk-app] datatype#21 pattern datatype#20
[mk-app] datatype#22 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?index datatype#20
[mk-app] datatype#23 = datatype#16 datatype#22
[mk-quant] datatype#24 constructor_accessor_axiom 4 datatype#21 datatype#23
[attach-var-names] datatype#24 (;Int) (;Poly) (;Poly) (;Poly)
[mk-app] datatype#25 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?snapshot datatype#20
[mk-app] datatype#26 = datatype#17 datatype#25
[mk-quant] datatype#27 constructor_accessor_axiom 4 datatype#21 datatype#26
[attach-var-names] datatype#27 (;Int) (;Poly) (;Poly) (;Poly)
[mk-app] datatype#28 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?iter datatype#20
[mk-app] datatype#29 = datatype#18 datatype#28
[mk-quant] datatype#30 constructor_accessor_axiom 4 datatype#21 datatype#29
[attach-var-names] datatype#30 (;Int) (;Poly) (;Poly) (;Poly)
[mk-app] datatype#31 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?history datatype#20
[mk-app] datatype#32 = datatype#19 datatype#31
[mk-quant] datatype#33 constructor_accessor_axiom 4 datatype#21 datatype#32
[attach-var-names] datatype#33 (;Int) (;Poly) (;Poly) (;Poly)
[mk-var] datatype#34 0
[mk-var] datatype#35 1
[mk-app] datatype#36 core!ops.range.Range./Range datatype#34 datatype#35
[mk-app] datatype#37 pattern datatype#36
[mk-app] datatype#38 core!ops.range.Range./Range/?start datatype#36
[mk-app] datatype#39 = datatype#34 datatype#38
[mk-quant] datatype#40 constructor_accessor_axiom 2 datatype#37 datatype#39
[attach-var-names] datatype#40 (;Poly) (;Poly)
[mk-app] datatype#41 core!ops.range.Range./Range/?end datatype#36
[mk-app] datatype#42 = datatype#35 datatype#41
[mk-quant] datatype#43 constructor_accessor_axiom 2 datatype#37 datatype#42
[attach-var-names] datatype#43 (;Poly) (;Poly)
[mk-var] datatype#44 0
[mk-var] datatype#45 1
[mk-var] datatype#46 2
[mk-app] datatype#47 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView datatype#44 datatype#45 datatype#46
[mk-app] datatype#48 pattern datatype#47
[mk-app] datatype#49 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/?start datatype#47
[mk-app] datatype#50 = datatype#44 datatype#49
[mk-quant] datatype#51 constructor_accessor_axiom 3 datatype#48 datatype#50
[attach-var-names] datatype#51 (;Poly) (;Poly) (;Bool)
[mk-app] datatype#52 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/?end datatype#47
[mk-app] datatype#53 = datatype#45 datatype#52
[mk-quant] datatype#54 constructor_accessor_axiom 3 datatype#48 datatype#53
[attach-var-names] datatype#54 (;Poly) (;Poly) (;Bool)
[mk-app] datatype#55 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/?exhausted datatype#47
[mk-app] datatype#56 = datatype#46 datatype#55
[mk-quant] datatype#57 constructor_accessor_axiom 3 datatype#48 datatype#56
[attach-var-names] datatype#57 (;Poly) (;Poly) (;Bool)
[mk-var] datatype#58 0
[mk-var] datatype#59 1
[mk-var] datatype#60 2
[mk-app] datatype#61 vstd!raw_ptr.PtrData./PtrData datatype#58 datatype#59 datatype#60
[mk-app] datatype#62 pattern datatype#61
[mk-app] datatype#63 vstd!raw_ptr.PtrData./PtrData/?addr datatype#61
[mk-app] datatype#64 = datatype#58 datatype#63
[mk-quant] datatype#65 constructor_accessor_axiom 3 datatype#62 datatype#64
[attach-var-names] datatype#65 (;Int) (;vstd!raw_ptr.Provenance.) (;Poly)
[mk-app] datatype#66 vstd!raw_ptr.PtrData./PtrData/?provenance datatype#61
[mk-app] datatype#67 = datatype#59 datatype#66
[mk-quant] datatype#68 constructor_accessor_axiom 3 datatype#62 datatype#67
[attach-var-names] datatype#68 (;Int) (;vstd!raw_ptr.Provenance.) (;Poly)
[mk-app] datatype#69 vstd!raw_ptr.PtrData./PtrData/?metadata datatype#61
[mk-app] datatype#70 = datatype#60 datatype#69
[mk-quant] datatype#71 constructor_accessor_axiom 3 datatype#62 datatype#70
[attach-var-names] datatype#71 (;Int) (;vstd!raw_ptr.Provenance.) (;Poly)
[mk-var] datatype#72 0
[mk-app] datatype#73 tuple%1./tuple%1 datatype#72
[mk-app] datatype#74 pattern datatype#73
[mk-app] datatype#75 tuple%1./tuple%1/?0 datatype#73
[mk-app] datatype#76 = datatype#72 datatype#75
[mk-quant] datatype#77 constructor_accessor_axiom 1 datatype#74 datatype#76
[attach-var-names] datatype#77 (;Poly)
[mk-var] datatype#78 0
[mk-var] datatype#79 1
[mk-app] datatype#80 tuple%2./tuple%2 datatype#78 datatype#79
[mk-app] datatype#81 pattern datatype#80
[mk-app] datatype#82 tuple%2./tuple%2/?0 datatype#80
[mk-app] datatype#83 = datatype#78 datatype#82
[mk-quant] datatype#84 constructor_accessor_axiom 2 datatype#81 datatype#83
[attach-var-names] datatype#84 (;Poly) (;Poly)
[mk-app] datatype#85 tuple%2./tuple%2/?1 datatype#80
[mk-app] datatype#86 = datatype#79 datatype#85
[mk-quant] datatype#87 constructor_accessor_axiom 2 datatype#81 datatype#86
[attach-var-names] datatype#87 (;Poly) (;Poly)
[mk-app] #1555 Poly%fun%1. #156
[mk-app] #1556 %Poly%fun%1. #1555
[mk-app] #1557 = #156 #1556
[mk-app] #1558 pattern #1555
[mk-quant] #1559 internal_crate__fun__1_box_axiom_definition 1 #1558 #1557
[attach-var-names] #1559 (|x| ; |%%Function%%|)
[mk-var] #1560 4
[mk-var] #1561 3
[mk-app] #1562 TYPE%fun%1. #1560 #1561 #64 #65
[mk-app] #1563 has_type #33 #1562
[mk-app] #1564 %Poly%fun%1. #33
[mk-app] #1565 Poly%fun%1. #1564
[mk-app] #1566 = #33 #1565
[mk-app] #1567 => #1563 #1566
[mk-app] #1568 pattern #1563
[mk-quant] #1569 internal_crate__fun__1_unbox_axiom_definition 5 #1568 #1567
[attach-var-names] #1569 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1570 not #1563
[mk-app] #1571 or #1570 #1566
[inst-discovered] theory-solving 0x0 basic# ; #1567
[mk-app] #1572 = #1567 #1571
[instance] 0x0 #1572
[attach-enode] #1572 0
[end-of-instance]
[mk-quant] #1572 internal_crate__fun__1_unbox_axiom_definition 5 #1568 #1571
[attach-var-names] #1572 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-var] #1573 4
[mk-app] #1574 has_type #33 #1573
[mk-var] #1575 1
[mk-app] #1576 %%apply%%0 #1575 #33
[mk-app] #1577 has_type #1576 #263
[mk-app] #1578 => #1574 #1577
[mk-app] #1579 pattern #1577
[mk-quant] #1580 internal_crate__fun__1_constructor_inner_definition 1 #1579 #1578
[attach-var-names] #1580 (|T%0| ; |Poly|)
[mk-app] #1581 Poly%fun%1. #157
[mk-app] #1582 has_type #1581 #1562
[mk-app] #1583 => #1580 #1582
[mk-app] #1584 pattern #1582
[mk-quant] #1585 internal_crate__fun__1_constructor_definition 5 #1584 #1583
[attach-var-names] #1585 (|x| ; |%%Function%%|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1586 not #1574
[mk-app] #1587 or #1586 #1577
[inst-discovered] theory-solving 0x0 basic# ; #1578
[mk-app] #1588 = #1578 #1587
[instance] 0x0 #1588
[attach-enode] #1588 0
[end-of-instance]
[mk-quant] #1588 internal_crate__fun__1_constructor_inner_definition 1 #1579 #1587
[attach-var-names] #1588 (|T%0| ; |Poly|)
[mk-app] #1589 not #1588
[mk-app] #1590 or #1589 #1582
[mk-app] #1591 => #1588 #1582
[inst-discovered] theory-solving 0x0 basic# ; #1591
[mk-app] #1592 = #1591 #1590
[instance] 0x0 #1592
[attach-enode] #1592 0
[end-of-instance]
[mk-quant] #1591 internal_crate__fun__1_constructor_definition 5 #1584 #1590
[attach-var-names] #1591 (|x| ; |%%Function%%|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-var] #1592 5
[mk-var] #1593 3
[mk-app] #1594 TYPE%fun%1. #1592 #1573 #1593 #263
[mk-app] #1595 has_type #1555 #1594
[mk-app] #1596 has_type #32 #1573
[mk-app] #1597 and #1595 #1596
[mk-app] #1598 %%apply%%0 #156 #32
[mk-app] #1599 has_type #1598 #263
[mk-app] #1600 => #1597 #1599
[mk-app] #1601 pattern #1598 #1595
[mk-quant] #1602 internal_crate__fun__1_apply_definition 6 #1601 #1600
[attach-var-names] #1602 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1603 not #1597
[mk-app] #1604 or #1603 #1599
[inst-discovered] theory-solving 0x0 basic# ; #1600
[mk-app] #1605 = #1600 #1604
[instance] 0x0 #1605
[attach-enode] #1605 0
[end-of-instance]
[mk-quant] #1605 internal_crate__fun__1_apply_definition 6 #1601 #1604
[attach-var-names] #1605 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1606 height #1598
[mk-app] #1607 fun_from_recursive_field #1581
[mk-app] #1608 height #1607
[mk-app] #1609 height_lt #1606 #1608
[mk-app] #1610 => #1597 #1609
[mk-app] #1611 pattern #1606 #1595
[mk-quant] #1612 internal_crate__fun__1_height_apply_definition 6 #1611 #1610
[attach-var-names] #1612 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1613 or #1603 #1609
[inst-discovered] theory-solving 0x0 basic# ; #1610
[mk-app] #1614 = #1610 #1613
[instance] 0x0 #1614
[attach-enode] #1614 0
[end-of-instance]
[mk-quant] #1614 internal_crate__fun__1_height_apply_definition 6 #1611 #1613
[attach-var-names] #1614 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-var] #1615 6
[mk-var] #1616 5
[mk-var] #1617 2
[mk-app] #1618 TYPE%fun%1. #1615 #1616 #1560 #1561
[mk-app] #1619 has_type #32 #1618
[mk-app] #1620 has_type #33 #1618
[mk-var] #1621 6
[mk-app] #1622 has_type #33 #1621
[mk-app] #1623 %Poly%fun%1. #43
[mk-app] #1624 %%apply%%0 #1623 #33
[mk-app] #1625 %Poly%fun%1. #32
[mk-app] #1626 %%apply%%0 #1625 #33
[mk-app] #1627 ext_eq #262 #1573 #1624 #1626
[mk-app] #1628 => #1622 #1627
[mk-app] #1629 pattern #1627
[mk-quant] #1630 internal_crate__fun__1_inner_ext_equal_definition 1 #1629 #1628
[attach-var-names] #1630 (|T%0| ; |Poly|)
[mk-app] #1631 and #1619 #1620 #1630
[mk-app] #1632 ext_eq #1617 #1618 #32 #33
[mk-app] #1633 => #1631 #1632
[mk-app] #1634 pattern #1632
[mk-quant] #1635 internal_crate__fun__1_ext_equal_definition 7 #1634 #1633
[attach-var-names] #1635 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1636 not #1622
[mk-app] #1637 or #1636 #1627
[inst-discovered] theory-solving 0x0 basic# ; #1628
[mk-app] #1638 = #1628 #1637
[instance] 0x0 #1638
[attach-enode] #1638 0
[end-of-instance]
[mk-quant] #1638 internal_crate__fun__1_inner_ext_equal_definition 1 #1629 #1637
[attach-var-names] #1638 (|T%0| ; |Poly|)
[mk-app] #1639 and #1619 #1620 #1638
[mk-app] #1640 not #1639
[mk-app] #1641 or #1640 #1632
[mk-app] #1642 => #1639 #1632
[inst-discovered] theory-solving 0x0 basic# ; #1642
[mk-app] #1643 = #1642 #1641
[instance] 0x0 #1643
[attach-enode] #1643 0
[end-of-instance]
[mk-quant] #1642 internal_crate__fun__1_ext_equal_definition 7 #1634 #1641
[attach-var-names] #1642 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1643 Poly%array%. #156
[mk-app] #1644 %Poly%array%. #1643
[mk-app] #1645 = #156 #1644
[mk-app] #1646 pattern #1643
[mk-quant] #1647 internal_crate__array___box_axiom_definition 1 #1646 #1645
[attach-var-names] #1647 (|x| ; |%%Function%%|)
[mk-app] #1648 ARRAY #1560 #1561 #64 #65
[mk-app] #1649 has_type #33 #1648
[mk-app] #1650 %Poly%array%. #33
[mk-app] #1651 Poly%array%. #1650
[mk-app] #1652 = #33 #1651
[mk-app] #1653 => #1649 #1652
[mk-app] #1654 pattern #1649
[mk-quant] #1655 internal_crate__array___unbox_axiom_definition 5 #1654 #1653
[attach-var-names] #1655 (|x| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1656 not #1649
[mk-app] #1657 or #1656 #1652
[inst-discovered] theory-solving 0x0 basic# ; #1653
[mk-app] #1658 = #1653 #1657
[instance] 0x0 #1658
[attach-enode] #1658 0
[end-of-instance]
[mk-quant] #1658 internal_crate__array___unbox_axiom_definition 5 #1654 #1657
[attach-var-names] #1658 (|x| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #1659 0
[mk-app] #1660 Poly%core!iter.adapters.rev.Rev<core!ops.range.Range<usize.>.>. #1659
[mk-app] #1661 %Poly%core!iter.adapters.rev.Rev<core!ops.range.Range<usize.>.>. #1660
[mk-app] #1662 = #1659 #1661
[mk-app] #1663 pattern #1660
[mk-quant] #1664 internal_core__iter__adapters__rev__Rev<core!ops.range.Range<usize.>.>_box_axiom_definition 1 #1663 #1662
[attach-var-names] #1664 (|x| ; |core!iter.adapters.rev.Rev<core!ops.range.Range<usize.>.>.|)
[mk-app] #1665 TYPE%core!ops.range.Range. #120 #203
[mk-app] #1666 TYPE%core!iter.adapters.rev.Rev. #120 #1665
[mk-app] #1667 has_type #33 #1666
[mk-app] #1668 %Poly%core!iter.adapters.rev.Rev<core!ops.range.Range<usize.>.>. #33
[mk-app] #1669 Poly%core!iter.adapters.rev.Rev<core!ops.range.Range<usize.>.>. #1668
[mk-app] #1670 = #33 #1669
[mk-app] #1671 => #1667 #1670
[mk-app] #1672 pattern #1667
[mk-quant] #1673 internal_core__iter__adapters__rev__Rev<core!ops.range.Range<usize.>.>_unbox_axiom_definition 1 #1672 #1671
[attach-var-names] #1673 (|x| ; |Poly|)
[mk-app] #1674 not #1667
[mk-app] #1675 or #1674 #1670
[inst-discovered] theory-solving 0x0 basic# ; #1671
[mk-app] #1676 = #1671 #1675
[instance] 0x0 #1676
[attach-enode] #1676 0
[end-of-instance]
[mk-quant] #1676 internal_core__iter__adapters__rev__Rev<core!ops.range.Range<usize.>.>_unbox_axiom_definition 1 #1672 #1675
[attach-var-names] #1676 (|x| ; |Poly|)
[mk-app] #1677 has_type #1660 #1666
[mk-app] #1678 pattern #1677
[mk-quant] #1679 internal_core__iter__adapters__rev__Rev<core!ops.range.Range<usize.>.>_has_type_always_definition 1 #1678 #1677
[attach-var-names] #1679 (|x| ; |core!iter.adapters.rev.Rev<core!ops.range.Range<usize.>.>.|)
[mk-var] #1680 0
[mk-app] #1681 Poly%core!iter.adapters.rev.Rev<core!ops.range.RangeInclusive<usize.>.>. #1680
[mk-app] #1682 %Poly%core!iter.adapters.rev.Rev<core!ops.range.RangeInclusive<usize.>.>. #1681
[mk-app] #1683 = #1680 #1682
[mk-app] #1684 pattern #1681
[mk-quant] #1685 internal_core__iter__adapters__rev__Rev<core!ops.range.RangeInclusive<usize.>.>_box_axiom_definition 1 #1684 #1683
[attach-var-names] #1685 (|x| ; |core!iter.adapters.rev.Rev<core!ops.range.RangeInclusive<usize.>.>.|)
[mk-app] #1686 TYPE%core!ops.range.RangeInclusive. #120 #203
[mk-app] #1687 TYPE%core!iter.adapters.rev.Rev. #120 #1686
[mk-app] #1688 has_type #33 #1687
[mk-app] #1689 %Poly%core!iter.adapters.rev.Rev<core!ops.range.RangeInclusive<usize.>.>. #33
[mk-app] #1690 Poly%core!iter.adapters.rev.Rev<core!ops.range.RangeInclusive<usize.>.>. #1689
[mk-app] #1691 = #33 #1690
[mk-app] #1692 => #1688 #1691
[mk-app] #1693 pattern #1688
[mk-quant] #1694 internal_core__iter__adapters__rev__Rev<core!ops.range.RangeInclusive<usize.>.>_unbox_axiom_definition 1 #1693 #1692
[attach-var-names] #1694 (|x| ; |Poly|)
[mk-app] #1695 not #1688
[mk-app] #1696 or #1695 #1691
[inst-discovered] theory-solving 0x0 basic# ; #1692
[mk-app] #1697 = #1692 #1696
[instance] 0x0 #1697
[attach-enode] #1697 0
[end-of-instance]
[mk-quant] #1697 internal_core__iter__adapters__rev__Rev<core!ops.range.RangeInclusive<usize.>.>_unbox_axiom_definition 1 #1693 #1696
[attach-var-names] #1697 (|x| ; |Poly|)
[mk-app] #1698 has_type #1681 #1687
[mk-app] #1699 pattern #1698
[mk-quant] #1700 internal_core__iter__adapters__rev__Rev<core!ops.range.RangeInclusive<usize.>.>_has_type_always_definition 1 #1699 #1698
[attach-var-names] #1700 (|x| ; |core!iter.adapters.rev.Rev<core!ops.range.RangeInclusive<usize.>.>.|)
[mk-var] #1701 0
[mk-app] #1702 Poly%core!num.nonzero.NonZero<u8.>. #1701
[mk-app] #1703 %Poly%core!num.nonzero.NonZero<u8.>. #1702
[mk-app] #1704 = #1701 #1703
[mk-app] #1705 pattern #1702
[mk-quant] #1706 internal_core__num__nonzero__NonZero<u8.>_box_axiom_definition 1 #1705 #1704
[attach-var-names] #1706 (|x| ; |core!num.nonzero.NonZero<u8.>.|)
[mk-app] #1707 UINT #275
[mk-app] #1708 TYPE%core!num.nonzero.NonZero. #120 #1707
[mk-app] #1709 has_type #33 #1708
[mk-app] #1710 %Poly%core!num.nonzero.NonZero<u8.>. #33
[mk-app] #1711 Poly%core!num.nonzero.NonZero<u8.>. #1710
[mk-app] #1712 = #33 #1711
[mk-app] #1713 => #1709 #1712
[mk-app] #1714 pattern #1709
[mk-quant] #1715 internal_core__num__nonzero__NonZero<u8.>_unbox_axiom_definition 1 #1714 #1713
[attach-var-names] #1715 (|x| ; |Poly|)
[mk-app] #1716 not #1709
[mk-app] #1717 or #1716 #1712
[inst-discovered] theory-solving 0x0 basic# ; #1713
[mk-app] #1718 = #1713 #1717
[instance] 0x0 #1718
[attach-enode] #1718 0
[end-of-instance]
[mk-quant] #1718 internal_core__num__nonzero__NonZero<u8.>_unbox_axiom_definition 1 #1714 #1717
[attach-var-names] #1718 (|x| ; |Poly|)
[mk-app] #1719 has_type #1702 #1708
[mk-app] #1720 pattern #1719
[mk-quant] #1721 internal_core__num__nonzero__NonZero<u8.>_has_type_always_definition 1 #1720 #1719
[attach-var-names] #1721 (|x| ; |core!num.nonzero.NonZero<u8.>.|)
[mk-var] #1722 0
[mk-app] #1723 Poly%core!num.nonzero.NonZero<u16.>. #1722
[mk-app] #1724 %Poly%core!num.nonzero.NonZero<u16.>. #1723
[mk-app] #1725 = #1722 #1724
[mk-app] #1726 pattern #1723
[mk-quant] #1727 internal_core__num__nonzero__NonZero<u16.>_box_axiom_definition 1 #1726 #1725
[attach-var-names] #1727 (|x| ; |core!num.nonzero.NonZero<u16.>.|)
[attach-meaning] #279 arith 16
[mk-app] #1728 UINT #279
[mk-app] #1729 TYPE%core!num.nonzero.NonZero. #120 #1728
[mk-app] #1730 has_type #33 #1729
[mk-app] #1731 %Poly%core!num.nonzero.NonZero<u16.>. #33
[mk-app] #1732 Poly%core!num.nonzero.NonZero<u16.>. #1731
[mk-app] #1733 = #33 #1732
[mk-app] #1734 => #1730 #1733
[attach-meaning] #279 arith 16
[mk-app] #1735 pattern #1730
[mk-quant] #1736 internal_core__num__nonzero__NonZero<u16.>_unbox_axiom_definition 1 #1735 #1734
[attach-var-names] #1736 (|x| ; |Poly|)
[mk-app] #1737 not #1730
[mk-app] #1738 or #1737 #1733
[inst-discovered] theory-solving 0x0 basic# ; #1734
[mk-app] #1739 = #1734 #1738
[instance] 0x0 #1739
[attach-enode] #1739 0
[end-of-instance]
[mk-quant] #1739 internal_core__num__nonzero__NonZero<u16.>_unbox_axiom_definition 1 #1735 #1738
[attach-var-names] #1739 (|x| ; |Poly|)
[attach-meaning] #279 arith 16
[mk-app] #1740 has_type #1723 #1729
[attach-meaning] #279 arith 16
[mk-app] #1741 pattern #1740
[mk-quant] #1742 internal_core__num__nonzero__NonZero<u16.>_has_type_always_definition 1 #1741 #1740
[attach-var-names] #1742 (|x| ; |core!num.nonzero.NonZero<u16.>.|)
[mk-var] #1743 0
[mk-app] #1744 Poly%core!num.nonzero.NonZero<u32.>. #1743
[mk-app] #1745 %Poly%core!num.nonzero.NonZero<u32.>. #1744
[mk-app] #1746 = #1743 #1745
[mk-app] #1747 pattern #1744
[mk-quant] #1748 internal_core__num__nonzero__NonZero<u32.>_box_axiom_definition 1 #1747 #1746
[attach-var-names] #1748 (|x| ; |core!num.nonzero.NonZero<u32.>.|)
[attach-meaning] #270 arith 32
[mk-app] #1749 UINT #270
[mk-app] #1750 TYPE%core!num.nonzero.NonZero. #120 #1749
[mk-app] #1751 has_type #33 #1750
[mk-app] #1752 %Poly%core!num.nonzero.NonZero<u32.>. #33
[mk-app] #1753 Poly%core!num.nonzero.NonZero<u32.>. #1752
[mk-app] #1754 = #33 #1753
[mk-app] #1755 => #1751 #1754
[attach-meaning] #270 arith 32
[mk-app] #1756 pattern #1751
[mk-quant] #1757 internal_core__num__nonzero__NonZero<u32.>_unbox_axiom_definition 1 #1756 #1755
[attach-var-names] #1757 (|x| ; |Poly|)
[mk-app] #1758 not #1751
[mk-app] #1759 or #1758 #1754
[inst-discovered] theory-solving 0x0 basic# ; #1755
[mk-app] #1760 = #1755 #1759
[instance] 0x0 #1760
[attach-enode] #1760 0
[end-of-instance]
[mk-quant] #1760 internal_core__num__nonzero__NonZero<u32.>_unbox_axiom_definition 1 #1756 #1759
[attach-var-names] #1760 (|x| ; |Poly|)
[attach-meaning] #270 arith 32
[mk-app] #1761 has_type #1744 #1750
[attach-meaning] #270 arith 32
[mk-app] #1762 pattern #1761
[mk-quant] #1763 internal_core__num__nonzero__NonZero<u32.>_has_type_always_definition 1 #1762 #1761
[attach-var-names] #1763 (|x| ; |core!num.nonzero.NonZero<u32.>.|)
[mk-var] #1764 0
[mk-app] #1765 Poly%core!num.nonzero.NonZero<u64.>. #1764
[mk-app] #1766 %Poly%core!num.nonzero.NonZero<u64.>. #1765
[mk-app] #1767 = #1764 #1766
[mk-app] #1768 pattern #1765
[mk-quant] #1769 internal_core__num__nonzero__NonZero<u64.>_box_axiom_definition 1 #1768 #1767
[attach-var-names] #1769 (|x| ; |core!num.nonzero.NonZero<u64.>.|)
[attach-meaning] #272 arith 64
[mk-app] #1770 UINT #272
[mk-app] #1771 TYPE%core!num.nonzero.NonZero. #120 #1770
[mk-app] #1772 has_type #33 #1771
[mk-app] #1773 %Poly%core!num.nonzero.NonZero<u64.>. #33
[mk-app] #1774 Poly%core!num.nonzero.NonZero<u64.>. #1773
[mk-app] #1775 = #33 #1774
[mk-app] #1776 => #1772 #1775
[attach-meaning] #272 arith 64
[mk-app] #1777 pattern #1772
[mk-quant] #1778 internal_core__num__nonzero__NonZero<u64.>_unbox_axiom_definition 1 #1777 #1776
[attach-var-names] #1778 (|x| ; |Poly|)
[mk-app] #1779 not #1772
[mk-app] #1780 or #1779 #1775
[inst-discovered] theory-solving 0x0 basic# ; #1776
[mk-app] #1781 = #1776 #1780
[instance] 0x0 #1781
[attach-enode] #1781 0
[end-of-instance]
[mk-quant] #1781 internal_core__num__nonzero__NonZero<u64.>_unbox_axiom_definition 1 #1777 #1780
[attach-var-names] #1781 (|x| ; |Poly|)
[attach-meaning] #272 arith 64
[mk-app] #1782 has_type #1765 #1771
[attach-meaning] #272 arith 64
[mk-app] #1783 pattern #1782
[mk-quant] #1784 internal_core__num__nonzero__NonZero<u64.>_has_type_always_definition 1 #1783 #1782
[attach-var-names] #1784 (|x| ; |core!num.nonzero.NonZero<u64.>.|)
[mk-var] #1785 0
[mk-app] #1786 Poly%core!num.nonzero.NonZero<u128.>. #1785
[mk-app] #1787 %Poly%core!num.nonzero.NonZero<u128.>. #1786
[mk-app] #1788 = #1785 #1787
[mk-app] #1789 pattern #1786
[mk-quant] #1790 internal_core__num__nonzero__NonZero<u128.>_box_axiom_definition 1 #1789 #1788
[attach-var-names] #1790 (|x| ; |core!num.nonzero.NonZero<u128.>.|)
[attach-meaning] #289 arith 128
[mk-app] #1791 UINT #289
[mk-app] #1792 TYPE%core!num.nonzero.NonZero. #120 #1791
[mk-app] #1793 has_type #33 #1792
[mk-app] #1794 %Poly%core!num.nonzero.NonZero<u128.>. #33
[mk-app] #1795 Poly%core!num.nonzero.NonZero<u128.>. #1794
[mk-app] #1796 = #33 #1795
[mk-app] #1797 => #1793 #1796
[attach-meaning] #289 arith 128
[mk-app] #1798 pattern #1793
[mk-quant] #1799 internal_core__num__nonzero__NonZero<u128.>_unbox_axiom_definition 1 #1798 #1797
[attach-var-names] #1799 (|x| ; |Poly|)
[mk-app] #1800 not #1793
[mk-app] #1801 or #1800 #1796
[inst-discovered] theory-solving 0x0 basic# ; #1797
[mk-app] #1802 = #1797 #1801
[instance] 0x0 #1802
[attach-enode] #1802 0
[end-of-instance]
[mk-quant] #1802 internal_core__num__nonzero__NonZero<u128.>_unbox_axiom_definition 1 #1798 #1801
[attach-var-names] #1802 (|x| ; |Poly|)
[attach-meaning] #289 arith 128
[mk-app] #1803 has_type #1786 #1792
[attach-meaning] #289 arith 128
[mk-app] #1804 pattern #1803
[mk-quant] #1805 internal_core__num__nonzero__NonZero<u128.>_has_type_always_definition 1 #1804 #1803
[attach-var-names] #1805 (|x| ; |core!num.nonzero.NonZero<u128.>.|)
[mk-var] #1806 0
[mk-app] #1807 Poly%core!num.nonzero.NonZero<i8.>. #1806
[mk-app] #1808 %Poly%core!num.nonzero.NonZero<i8.>. #1807
[mk-app] #1809 = #1806 #1808
[mk-app] #1810 pattern #1807
[mk-quant] #1811 internal_core__num__nonzero__NonZero<i8.>_box_axiom_definition 1 #1810 #1809
[attach-var-names] #1811 (|x| ; |core!num.nonzero.NonZero<i8.>.|)
[mk-app] #1812 SINT #275
[mk-app] #1813 TYPE%core!num.nonzero.NonZero. #120 #1812
[mk-app] #1814 has_type #33 #1813
[mk-app] #1815 %Poly%core!num.nonzero.NonZero<i8.>. #33
[mk-app] #1816 Poly%core!num.nonzero.NonZero<i8.>. #1815
[mk-app] #1817 = #33 #1816
[mk-app] #1818 => #1814 #1817
[mk-app] #1819 pattern #1814
[mk-quant] #1820 internal_core__num__nonzero__NonZero<i8.>_unbox_axiom_definition 1 #1819 #1818
[attach-var-names] #1820 (|x| ; |Poly|)
[mk-app] #1821 not #1814
[mk-app] #1822 or #1821 #1817
[inst-discovered] theory-solving 0x0 basic# ; #1818
[mk-app] #1823 = #1818 #1822
[instance] 0x0 #1823
[attach-enode] #1823 0
[end-of-instance]
[mk-quant] #1823 internal_core__num__nonzero__NonZero<i8.>_unbox_axiom_definition 1 #1819 #1822
[attach-var-names] #1823 (|x| ; |Poly|)
[mk-app] #1824 has_type #1807 #1813
[mk-app] #1825 pattern #1824
[mk-quant] #1826 internal_core__num__nonzero__NonZero<i8.>_has_type_always_definition 1 #1825 #1824
[attach-var-names] #1826 (|x| ; |core!num.nonzero.NonZero<i8.>.|)
[mk-var] #1827 0
[mk-app] #1828 Poly%core!num.nonzero.NonZero<i16.>. #1827
[mk-app] #1829 %Poly%core!num.nonzero.NonZero<i16.>. #1828
[mk-app] #1830 = #1827 #1829
[mk-app] #1831 pattern #1828
[mk-quant] #1832 internal_core__num__nonzero__NonZero<i16.>_box_axiom_definition 1 #1831 #1830
[attach-var-names] #1832 (|x| ; |core!num.nonzero.NonZero<i16.>.|)
[attach-meaning] #279 arith 16
[mk-app] #1833 SINT #279
[mk-app] #1834 TYPE%core!num.nonzero.NonZero. #120 #1833
[mk-app] #1835 has_type #33 #1834
[mk-app] #1836 %Poly%core!num.nonzero.NonZero<i16.>. #33
[mk-app] #1837 Poly%core!num.nonzero.NonZero<i16.>. #1836
[mk-app] #1838 = #33 #1837
[mk-app] #1839 => #1835 #1838
[attach-meaning] #279 arith 16
[mk-app] #1840 pattern #1835
[mk-quant] #1841 internal_core__num__nonzero__NonZero<i16.>_unbox_axiom_definition 1 #1840 #1839
[attach-var-names] #1841 (|x| ; |Poly|)
[mk-app] #1842 not #1835
[mk-app] #1843 or #1842 #1838
[inst-discovered] theory-solving 0x0 basic# ; #1839
[mk-app] #1844 = #1839 #1843
[instance] 0x0 #1844
[attach-enode] #1844 0
[end-of-instance]
[mk-quant] #1844 internal_core__num__nonzero__NonZero<i16.>_unbox_axiom_definition 1 #1840 #1843
[attach-var-names] #1844 (|x| ; |Poly|)
[attach-meaning] #279 arith 16
[mk-app] #1845 has_type #1828 #1834
[attach-meaning] #279 arith 16
[mk-app] #1846 pattern #1845
[mk-quant] #1847 internal_core__num__nonzero__NonZero<i16.>_has_type_always_definition 1 #1846 #1845
[attach-var-names] #1847 (|x| ; |core!num.nonzero.NonZero<i16.>.|)
[mk-var] #1848 0
[mk-app] #1849 Poly%core!num.nonzero.NonZero<i32.>. #1848
[mk-app] #1850 %Poly%core!num.nonzero.NonZero<i32.>. #1849
[mk-app] #1851 = #1848 #1850
[mk-app] #1852 pattern #1849
[mk-quant] #1853 internal_core__num__nonzero__NonZero<i32.>_box_axiom_definition 1 #1852 #1851
[attach-var-names] #1853 (|x| ; |core!num.nonzero.NonZero<i32.>.|)
[attach-meaning] #270 arith 32
[mk-app] #1854 SINT #270
[mk-app] #1855 TYPE%core!num.nonzero.NonZero. #120 #1854
[mk-app] #1856 has_type #33 #1855
[mk-app] #1857 %Poly%core!num.nonzero.NonZero<i32.>. #33
[mk-app] #1858 Poly%core!num.nonzero.NonZero<i32.>. #1857
[mk-app] #1859 = #33 #1858
[mk-app] #1860 => #1856 #1859
[attach-meaning] #270 arith 32
[mk-app] #1861 pattern #1856
[mk-quant] #1862 internal_core__num__nonzero__NonZero<i32.>_unbox_axiom_definition 1 #1861 #1860
[attach-var-names] #1862 (|x| ; |Poly|)
[mk-app] #1863 not #1856
[mk-app] #1864 or #1863 #1859
[inst-discovered] theory-solving 0x0 basic# ; #1860
[mk-app] #1865 = #1860 #1864
[instance] 0x0 #1865
[attach-enode] #1865 0
[end-of-instance]
[mk-quant] #1865 internal_core__num__nonzero__NonZero<i32.>_unbox_axiom_definition 1 #1861 #1864
[attach-var-names] #1865 (|x| ; |Poly|)
[attach-meaning] #270 arith 32
[mk-app] #1866 has_type #1849 #1855
[attach-meaning] #270 arith 32
[mk-app] #1867 pattern #1866
[mk-quant] #1868 internal_core__num__nonzero__NonZero<i32.>_has_type_always_definition 1 #1867 #1866
[attach-var-names] #1868 (|x| ; |core!num.nonzero.NonZero<i32.>.|)
[mk-var] #1869 0
[mk-app] #1870 Poly%core!num.nonzero.NonZero<i64.>. #1869
[mk-app] #1871 %Poly%core!num.nonzero.NonZero<i64.>. #1870
[mk-app] #1872 = #1869 #1871
[mk-app] #1873 pattern #1870
[mk-quant] #1874 internal_core__num__nonzero__NonZero<i64.>_box_axiom_definition 1 #1873 #1872
[attach-var-names] #1874 (|x| ; |core!num.nonzero.NonZero<i64.>.|)
[attach-meaning] #272 arith 64
[mk-app] #1875 SINT #272
[mk-app] #1876 TYPE%core!num.nonzero.NonZero. #120 #1875
[mk-app] #1877 has_type #33 #1876
[mk-app] #1878 %Poly%core!num.nonzero.NonZero<i64.>. #33
[mk-app] #1879 Poly%core!num.nonzero.NonZero<i64.>. #1878
[mk-app] #1880 = #33 #1879
[mk-app] #1881 => #1877 #1880
[attach-meaning] #272 arith 64
[mk-app] #1882 pattern #1877
[mk-quant] #1883 internal_core__num__nonzero__NonZero<i64.>_unbox_axiom_definition 1 #1882 #1881
[attach-var-names] #1883 (|x| ; |Poly|)
[mk-app] #1884 not #1877
[mk-app] #1885 or #1884 #1880
[inst-discovered] theory-solving 0x0 basic# ; #1881
[mk-app] #1886 = #1881 #1885
[instance] 0x0 #1886
[attach-enode] #1886 0
[end-of-instance]
[mk-quant] #1886 internal_core__num__nonzero__NonZero<i64.>_unbox_axiom_definition 1 #1882 #1885
[attach-var-names] #1886 (|x| ; |Poly|)
[attach-meaning] #272 arith 64
[mk-app] #1887 has_type #1870 #1876
[attach-meaning] #272 arith 64
[mk-app] #1888 pattern #1887
[mk-quant] #1889 internal_core__num__nonzero__NonZero<i64.>_has_type_always_definition 1 #1888 #1887
[attach-var-names] #1889 (|x| ; |core!num.nonzero.NonZero<i64.>.|)
[mk-var] #1890 0
[mk-app] #1891 Poly%core!num.nonzero.NonZero<i128.>. #1890
[mk-app] #1892 %Poly%core!num.nonzero.NonZero<i128.>. #1891
[mk-app] #1893 = #1890 #1892
[mk-app] #1894 pattern #1891
[mk-quant] #1895 internal_core__num__nonzero__NonZero<i128.>_box_axiom_definition 1 #1894 #1893
[attach-var-names] #1895 (|x| ; |core!num.nonzero.NonZero<i128.>.|)
[attach-meaning] #289 arith 128
[mk-app] #1896 SINT #289
[mk-app] #1897 TYPE%core!num.nonzero.NonZero. #120 #1896
[mk-app] #1898 has_type #33 #1897
[mk-app] #1899 %Poly%core!num.nonzero.NonZero<i128.>. #33
[mk-app] #1900 Poly%core!num.nonzero.NonZero<i128.>. #1899
[mk-app] #1901 = #33 #1900
[mk-app] #1902 => #1898 #1901
[attach-meaning] #289 arith 128
[mk-app] #1903 pattern #1898
[mk-quant] #1904 internal_core__num__nonzero__NonZero<i128.>_unbox_axiom_definition 1 #1903 #1902
[attach-var-names] #1904 (|x| ; |Poly|)
[mk-app] #1905 not #1898
[mk-app] #1906 or #1905 #1901
[inst-discovered] theory-solving 0x0 basic# ; #1902
[mk-app] #1907 = #1902 #1906
[instance] 0x0 #1907
[attach-enode] #1907 0
[end-of-instance]
[mk-quant] #1907 internal_core__num__nonzero__NonZero<i128.>_unbox_axiom_definition 1 #1903 #1906
[attach-var-names] #1907 (|x| ; |Poly|)
[attach-meaning] #289 arith 128
[mk-app] #1908 has_type #1891 #1897
[attach-meaning] #289 arith 128
[mk-app] #1909 pattern #1908
[mk-quant] #1910 internal_core__num__nonzero__NonZero<i128.>_has_type_always_definition 1 #1909 #1908
[attach-var-names] #1910 (|x| ; |core!num.nonzero.NonZero<i128.>.|)
[mk-var] #1911 0
[mk-app] #1912 Poly%core!num.nonzero.NonZero<usize.>. #1911
[mk-app] #1913 %Poly%core!num.nonzero.NonZero<usize.>. #1912
[mk-app] #1914 = #1911 #1913
[mk-app] #1915 pattern #1912
[mk-quant] #1916 internal_core__num__nonzero__NonZero<usize.>_box_axiom_definition 1 #1915 #1914
[attach-var-names] #1916 (|x| ; |core!num.nonzero.NonZero<usize.>.|)
[mk-app] #1917 TYPE%core!num.nonzero.NonZero. #120 #203
[mk-app] #1918 has_type #33 #1917
[mk-app] #1919 %Poly%core!num.nonzero.NonZero<usize.>. #33
[mk-app] #1920 Poly%core!num.nonzero.NonZero<usize.>. #1919
[mk-app] #1921 = #33 #1920
[mk-app] #1922 => #1918 #1921
[mk-app] #1923 pattern #1918
[mk-quant] #1924 internal_core__num__nonzero__NonZero<usize.>_unbox_axiom_definition 1 #1923 #1922
[attach-var-names] #1924 (|x| ; |Poly|)
[mk-app] #1925 not #1918
[mk-app] #1926 or #1925 #1921
[inst-discovered] theory-solving 0x0 basic# ; #1922
[mk-app] #1927 = #1922 #1926
[instance] 0x0 #1927
[attach-enode] #1927 0
[end-of-instance]
[mk-quant] #1927 internal_core__num__nonzero__NonZero<usize.>_unbox_axiom_definition 1 #1923 #1926
[attach-var-names] #1927 (|x| ; |Poly|)
[mk-app] #1928 has_type #1912 #1917
[mk-app] #1929 pattern #1928
[mk-quant] #1930 internal_core__num__nonzero__NonZero<usize.>_has_type_always_definition 1 #1929 #1928
[attach-var-names] #1930 (|x| ; |core!num.nonzero.NonZero<usize.>.|)
[mk-var] #1931 0
[mk-app] #1932 Poly%core!num.nonzero.NonZero<isize.>. #1931
[mk-app] #1933 %Poly%core!num.nonzero.NonZero<isize.>. #1932
[mk-app] #1934 = #1931 #1933
[mk-app] #1935 pattern #1932
[mk-quant] #1936 internal_core__num__nonzero__NonZero<isize.>_box_axiom_definition 1 #1935 #1934
[attach-var-names] #1936 (|x| ; |core!num.nonzero.NonZero<isize.>.|)
[mk-app] #1937 TYPE%core!num.nonzero.NonZero. #120 #211
[mk-app] #1938 has_type #33 #1937
[mk-app] #1939 %Poly%core!num.nonzero.NonZero<isize.>. #33
[mk-app] #1940 Poly%core!num.nonzero.NonZero<isize.>. #1939
[mk-app] #1941 = #33 #1940
[mk-app] #1942 => #1938 #1941
[mk-app] #1943 pattern #1938
[mk-quant] #1944 internal_core__num__nonzero__NonZero<isize.>_unbox_axiom_definition 1 #1943 #1942
[attach-var-names] #1944 (|x| ; |Poly|)
[mk-app] #1945 not #1938
[mk-app] #1946 or #1945 #1941
[inst-discovered] theory-solving 0x0 basic# ; #1942
[mk-app] #1947 = #1942 #1946
[instance] 0x0 #1947
[attach-enode] #1947 0
[end-of-instance]
[mk-quant] #1947 internal_core__num__nonzero__NonZero<isize.>_unbox_axiom_definition 1 #1943 #1946
[attach-var-names] #1947 (|x| ; |Poly|)
[mk-app] #1948 has_type #1932 #1937
[mk-app] #1949 pattern #1948
[mk-quant] #1950 internal_core__num__nonzero__NonZero<isize.>_has_type_always_definition 1 #1949 #1948
[attach-var-names] #1950 (|x| ; |core!num.nonzero.NonZero<isize.>.|)
[mk-var] #1951 0
[mk-app] #1952 Poly%core!ops.range.RangeInclusive<usize.>. #1951
[mk-app] #1953 %Poly%core!ops.range.RangeInclusive<usize.>. #1952
[mk-app] #1954 = #1951 #1953
[mk-app] #1955 pattern #1952
[mk-quant] #1956 internal_core__ops__range__RangeInclusive<usize.>_box_axiom_definition 1 #1955 #1954
[attach-var-names] #1956 (|x| ; |core!ops.range.RangeInclusive<usize.>.|)
[mk-app] #1957 has_type #33 #1686
[mk-app] #1958 %Poly%core!ops.range.RangeInclusive<usize.>. #33
[mk-app] #1959 Poly%core!ops.range.RangeInclusive<usize.>. #1958
[mk-app] #1960 = #33 #1959
[mk-app] #1961 => #1957 #1960
[mk-app] #1962 pattern #1957
[mk-quant] #1963 internal_core__ops__range__RangeInclusive<usize.>_unbox_axiom_definition 1 #1962 #1961
[attach-var-names] #1963 (|x| ; |Poly|)
[mk-app] #1964 not #1957
[mk-app] #1965 or #1964 #1960
[inst-discovered] theory-solving 0x0 basic# ; #1961
[mk-app] #1966 = #1961 #1965
[instance] 0x0 #1966
[attach-enode] #1966 0
[end-of-instance]
[mk-quant] #1966 internal_core__ops__range__RangeInclusive<usize.>_unbox_axiom_definition 1 #1962 #1965
[attach-var-names] #1966 (|x| ; |Poly|)
[mk-app] #1967 has_type #1952 #1686
[mk-app] #1968 pattern #1967
[mk-quant] #1969 internal_core__ops__range__RangeInclusive<usize.>_has_type_always_definition 1 #1968 #1967
[attach-var-names] #1969 (|x| ; |core!ops.range.RangeInclusive<usize.>.|)
[mk-var] #1970 0
[mk-app] #1971 Poly%core!time.Duration. #1970
[mk-app] #1972 %Poly%core!time.Duration. #1971
[mk-app] #1973 = #1970 #1972
[mk-app] #1974 pattern #1971
[mk-quant] #1975 internal_core__time__Duration_box_axiom_definition 1 #1974 #1973
[attach-var-names] #1975 (|x| ; |core!time.Duration.|)
[mk-app] #1976 TYPE%core!time.Duration.
[mk-app] #1977 has_type #33 #1976
[mk-app] #1978 %Poly%core!time.Duration. #33
[mk-app] #1979 Poly%core!time.Duration. #1978
[mk-app] #1980 = #33 #1979
[mk-app] #1981 => #1977 #1980
[mk-app] #1982 pattern #1977
[mk-quant] #1983 internal_core__time__Duration_unbox_axiom_definition 1 #1982 #1981
[attach-var-names] #1983 (|x| ; |Poly|)
[mk-app] #1984 not #1977
[mk-app] #1985 or #1984 #1980
[inst-discovered] theory-solving 0x0 basic# ; #1981
[mk-app] #1986 = #1981 #1985
[instance] 0x0 #1986
[attach-enode] #1986 0
[end-of-instance]
[mk-quant] #1986 internal_core__time__Duration_unbox_axiom_definition 1 #1982 #1985
[attach-var-names] #1986 (|x| ; |Poly|)
[mk-app] #1987 has_type #1971 #1976
[mk-app] #1988 pattern #1987
[mk-quant] #1989 internal_core__time__Duration_has_type_always_definition 1 #1988 #1987
[attach-var-names] #1989 (|x| ; |core!time.Duration.|)
[mk-var] #1990 0
[mk-app] #1991 Poly%alloc!alloc.Global. #1990
[mk-app] #1992 %Poly%alloc!alloc.Global. #1991
[mk-app] #1993 = #1990 #1992
[mk-app] #1994 pattern #1991
[mk-quant] #1995 internal_alloc__alloc__Global_box_axiom_definition 1 #1994 #1993
[attach-var-names] #1995 (|x| ; |alloc!alloc.Global.|)
[mk-app] #1996 TYPE%alloc!alloc.Global.
[mk-app] #1997 has_type #33 #1996
[mk-app] #1998 %Poly%alloc!alloc.Global. #33
[mk-app] #1999 Poly%alloc!alloc.Global. #1998
[mk-app] #2000 = #33 #1999
[mk-app] #2001 => #1997 #2000
[mk-app] #2002 pattern #1997
[mk-quant] #2003 internal_alloc__alloc__Global_unbox_axiom_definition 1 #2002 #2001
[attach-var-names] #2003 (|x| ; |Poly|)
[mk-app] #2004 not #1997
[mk-app] #2005 or #2004 #2000
[inst-discovered] theory-solving 0x0 basic# ; #2001
[mk-app] #2006 = #2001 #2005
[instance] 0x0 #2006
[attach-enode] #2006 0
[end-of-instance]
[mk-quant] #2006 internal_alloc__alloc__Global_unbox_axiom_definition 1 #2002 #2005
[attach-var-names] #2006 (|x| ; |Poly|)
[mk-app] #2007 has_type #1991 #1996
[mk-app] #2008 pattern #2007
[mk-quant] #2009 internal_alloc__alloc__Global_has_type_always_definition 1 #2008 #2007
[attach-var-names] #2009 (|x| ; |alloc!alloc.Global.|)
[mk-var] #2010 0
[mk-app] #2011 Poly%vstd!raw_ptr.Provenance. #2010
[mk-app] #2012 %Poly%vstd!raw_ptr.Provenance. #2011
[mk-app] #2013 = #2010 #2012
[mk-app] #2014 pattern #2011
[mk-quant] #2015 internal_vstd__raw_ptr__Provenance_box_axiom_definition 1 #2014 #2013
[attach-var-names] #2015 (|x| ; |vstd!raw_ptr.Provenance.|)
[mk-app] #2016 TYPE%vstd!raw_ptr.Provenance.
[mk-app] #2017 has_type #33 #2016
[mk-app] #2018 %Poly%vstd!raw_ptr.Provenance. #33
[mk-app] #2019 Poly%vstd!raw_ptr.Provenance. #2018
[mk-app] #2020 = #33 #2019
[mk-app] #2021 => #2017 #2020
[mk-app] #2022 pattern #2017
[mk-quant] #2023 internal_vstd__raw_ptr__Provenance_unbox_axiom_definition 1 #2022 #2021
[attach-var-names] #2023 (|x| ; |Poly|)
[mk-app] #2024 not #2017
[mk-app] #2025 or #2024 #2020
[inst-discovered] theory-solving 0x0 basic# ; #2021
[mk-app] #2026 = #2021 #2025
[instance] 0x0 #2026
[attach-enode] #2026 0
[end-of-instance]
[mk-quant] #2026 internal_vstd__raw_ptr__Provenance_unbox_axiom_definition 1 #2022 #2025
[attach-var-names] #2026 (|x| ; |Poly|)
[mk-app] #2027 has_type #2011 #2016
[mk-app] #2028 pattern #2027
[mk-quant] #2029 internal_vstd__raw_ptr__Provenance_has_type_always_definition 1 #2028 #2027
[attach-var-names] #2029 (|x| ; |vstd!raw_ptr.Provenance.|)
[mk-var] #2030 0
[mk-app] #2031 Poly%vstd!seq.Seq<usize.>. #2030
[mk-app] #2032 %Poly%vstd!seq.Seq<usize.>. #2031
[mk-app] #2033 = #2030 #2032
[mk-app] #2034 pattern #2031
[mk-quant] #2035 internal_vstd__seq__Seq<usize.>_box_axiom_definition 1 #2034 #2033
[attach-var-names] #2035 (|x| ; |vstd!seq.Seq<usize.>.|)
[mk-app] #2036 TYPE%vstd!seq.Seq. #120 #203
[mk-app] #2037 has_type #33 #2036
[mk-app] #2038 %Poly%vstd!seq.Seq<usize.>. #33
[mk-app] #2039 Poly%vstd!seq.Seq<usize.>. #2038
[mk-app] #2040 = #33 #2039
[mk-app] #2041 => #2037 #2040
[mk-app] #2042 pattern #2037
[mk-quant] #2043 internal_vstd__seq__Seq<usize.>_unbox_axiom_definition 1 #2042 #2041
[attach-var-names] #2043 (|x| ; |Poly|)
[mk-app] #2044 not #2037
[mk-app] #2045 or #2044 #2040
[inst-discovered] theory-solving 0x0 basic# ; #2041
[mk-app] #2046 = #2041 #2045
[instance] 0x0 #2046
[attach-enode] #2046 0
[end-of-instance]
[mk-quant] #2046 internal_vstd__seq__Seq<usize.>_unbox_axiom_definition 1 #2042 #2045
[attach-var-names] #2046 (|x| ; |Poly|)
[mk-app] #2047 has_type #2031 #2036
[mk-app] #2048 pattern #2047
[mk-quant] #2049 internal_vstd__seq__Seq<usize.>_has_type_always_definition 1 #2048 #2047
[attach-var-names] #2049 (|x| ; |vstd!seq.Seq<usize.>.|)
[mk-var] #2050 0
[mk-app] #2051 Poly%vstd!seq.Seq<real.>. #2050
[mk-app] #2052 %Poly%vstd!seq.Seq<real.>. #2051
[mk-app] #2053 = #2050 #2052
[mk-app] #2054 pattern #2051
[mk-quant] #2055 internal_vstd__seq__Seq<real.>_box_axiom_definition 1 #2054 #2053
[attach-var-names] #2055 (|x| ; |vstd!seq.Seq<real.>.|)
[mk-app] #2056 TYPE%vstd!seq.Seq. #120 #140
[mk-app] #2057 has_type #33 #2056
[mk-app] #2058 %Poly%vstd!seq.Seq<real.>. #33
[mk-app] #2059 Poly%vstd!seq.Seq<real.>. #2058
[mk-app] #2060 = #33 #2059
[mk-app] #2061 => #2057 #2060
[mk-app] #2062 pattern #2057
[mk-quant] #2063 internal_vstd__seq__Seq<real.>_unbox_axiom_definition 1 #2062 #2061
[attach-var-names] #2063 (|x| ; |Poly|)
[mk-app] #2064 not #2057
[mk-app] #2065 or #2064 #2060
[inst-discovered] theory-solving 0x0 basic# ; #2061
[mk-app] #2066 = #2061 #2065
[instance] 0x0 #2066
[attach-enode] #2066 0
[end-of-instance]
[mk-quant] #2066 internal_vstd__seq__Seq<real.>_unbox_axiom_definition 1 #2062 #2065
[attach-var-names] #2066 (|x| ; |Poly|)
[mk-app] #2067 has_type #2051 #2056
[mk-app] #2068 pattern #2067
[mk-quant] #2069 internal_vstd__seq__Seq<real.>_has_type_always_definition 1 #2068 #2067
[attach-var-names] #2069 (|x| ; |vstd!seq.Seq<real.>.|)
[mk-var] #2070 0
[mk-app] #2071 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #2070
[mk-app] #2072 %Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #2071
[mk-app] #2073 = #2070 #2072
[mk-app] #2074 pattern #2071
[mk-quant] #2075 internal_vstd__seq__Seq<vstd!seq.Seq<real.>.>_box_axiom_definition 1 #2074 #2073
[attach-var-names] #2075 (|x| ; |vstd!seq.Seq<vstd!seq.Seq<real.>.>.|)
[mk-app] #2076 TYPE%vstd!seq.Seq. #120 #2056
[mk-app] #2077 has_type #33 #2076
[mk-app] #2078 %Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #33
[mk-app] #2079 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #2078
[mk-app] #2080 = #33 #2079
[mk-app] #2081 => #2077 #2080
[mk-app] #2082 pattern #2077
[mk-quant] #2083 internal_vstd__seq__Seq<vstd!seq.Seq<real.>.>_unbox_axiom_definition 1 #2082 #2081
[attach-var-names] #2083 (|x| ; |Poly|)
[mk-app] #2084 not #2077
[mk-app] #2085 or #2084 #2080
[inst-discovered] theory-solving 0x0 basic# ; #2081
[mk-app] #2086 = #2081 #2085
[instance] 0x0 #2086
[attach-enode] #2086 0
[end-of-instance]
[mk-quant] #2086 internal_vstd__seq__Seq<vstd!seq.Seq<real.>.>_unbox_axiom_definition 1 #2082 #2085
[attach-var-names] #2086 (|x| ; |Poly|)
[mk-app] #2087 has_type #2071 #2076
[mk-app] #2088 pattern #2087
[mk-quant] #2089 internal_vstd__seq__Seq<vstd!seq.Seq<real.>.>_has_type_always_definition 1 #2088 #2087
[attach-var-names] #2089 (|x| ; |vstd!seq.Seq<vstd!seq.Seq<real.>.>.|)
[mk-var] #2090 0
[mk-app] #2091 Poly%core!cmp.Ordering. #2090
[mk-app] #2092 %Poly%core!cmp.Ordering. #2091
[mk-app] #2093 = #2090 #2092
[mk-app] #2094 pattern #2091
[mk-quant] #2095 internal_core__cmp__Ordering_box_axiom_definition 1 #2094 #2093
[attach-var-names] #2095 (|x| ; |core!cmp.Ordering.|)
[mk-app] #2096 TYPE%core!cmp.Ordering.
[mk-app] #2097 has_type #33 #2096
[mk-app] #2098 %Poly%core!cmp.Ordering. #33
[mk-app] #2099 Poly%core!cmp.Ordering. #2098
[mk-app] #2100 = #33 #2099
[mk-app] #2101 => #2097 #2100
[mk-app] #2102 pattern #2097
[mk-quant] #2103 internal_core__cmp__Ordering_unbox_axiom_definition 1 #2102 #2101
[attach-var-names] #2103 (|x| ; |Poly|)
[mk-app] #2104 not #2097
[mk-app] #2105 or #2104 #2100
[inst-discovered] theory-solving 0x0 basic# ; #2101
[mk-app] #2106 = #2101 #2105
[instance] 0x0 #2106
[attach-enode] #2106 0
[end-of-instance]
[mk-quant] #2106 internal_core__cmp__Ordering_unbox_axiom_definition 1 #2102 #2105
[attach-var-names] #2106 (|x| ; |Poly|)
[mk-app] #2107 has_type #2091 #2096
[mk-app] #2108 pattern #2107
[mk-quant] #2109 internal_core__cmp__Ordering_has_type_always_definition 1 #2108 #2107
[attach-var-names] #2109 (|x| ; |core!cmp.Ordering.|)
[mk-var] #2110 0
[mk-app] #2111 Poly%core!option.Option. #2110
[mk-app] #2112 %Poly%core!option.Option. #2111
[mk-app] #2113 = #2110 #2112
[mk-app] #2114 pattern #2111
[mk-quant] #2115 internal_core__option__Option_box_axiom_definition 1 #2114 #2113
[attach-var-names] #2115 (|x| ; |core!option.Option.|)
[mk-app] #2116 TYPE%core!option.Option. #64 #65
[mk-app] #2117 has_type #33 #2116
[mk-app] #2118 %Poly%core!option.Option. #33
[mk-app] #2119 Poly%core!option.Option. #2118
[mk-app] #2120 = #33 #2119
[mk-app] #2121 => #2117 #2120
[mk-app] #2122 pattern #2117
[mk-quant] #2123 internal_core__option__Option_unbox_axiom_definition 3 #2122 #2121
[attach-var-names] #2123 (|x| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2124 not #2117
[mk-app] #2125 or #2124 #2120
[inst-discovered] theory-solving 0x0 basic# ; #2121
[mk-app] #2126 = #2121 #2125
[instance] 0x0 #2126
[attach-enode] #2126 0
[end-of-instance]
[mk-quant] #2126 internal_core__option__Option_unbox_axiom_definition 3 #2122 #2125
[attach-var-names] #2126 (|x| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2127 core!option.Option./None
[mk-app] #2128 Poly%core!option.Option. #2127
[mk-app] #2129 TYPE%core!option.Option. #44 #45
[mk-app] #2130 has_type #2128 #2129
[mk-app] #2131 pattern #2130
[mk-quant] #2132 internal_core!option.Option./None_constructor_definition 2 #2131 #2130
[attach-var-names] #2132 (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2133 core!option.Option./Some #33
[mk-app] #2134 Poly%core!option.Option. #2133
[mk-app] #2135 has_type #2134 #2116
[mk-app] #2136 => #68 #2135
[mk-app] #2137 pattern #2135
[mk-quant] #2138 internal_core!option.Option./Some_constructor_definition 3 #2137 #2136
[attach-var-names] #2138 (|_0!| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2139 not #68
[mk-app] #2140 or #2139 #2135
[inst-discovered] theory-solving 0x0 basic# ; #2136
[mk-app] #2141 = #2136 #2140
[instance] 0x0 #2141
[attach-enode] #2141 0
[end-of-instance]
[mk-quant] #2141 internal_core!option.Option./Some_constructor_definition 3 #2137 #2140
[attach-var-names] #2141 (|_0!| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2142 is-core!option.Option./Some #2110
[mk-app] #2143 core!option.Option./Some/0 #64 #65 #2110
[mk-app] #2144 core!option.Option./Some/?0 #2110
[mk-app] #2145 = #2143 #2144
[mk-app] #2146 => #2142 #2145
[mk-app] #2147 pattern #2143
[mk-quant] #2148 internal_core!option.Option./Some/0_accessor_definition 3 #2147 #2146
[attach-var-names] #2148 (|x| ; |core!option.Option.|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2149 is #2110
[inst-discovered] theory-solving 0x0 datatype# ; #2142
[mk-app] #2150 = #2142 #2149
[instance] 0x0 #2150
[attach-enode] #2150 0
[end-of-instance]
[mk-app] #2150 not #2149
[mk-app] #2151 or #2150 #2145
[mk-app] #2152 => #2149 #2145
[inst-discovered] theory-solving 0x0 basic# ; #2152
[mk-app] #2153 = #2152 #2151
[instance] 0x0 #2153
[attach-enode] #2153 0
[end-of-instance]
[mk-quant] #2152 internal_core!option.Option./Some/0_accessor_definition 3 #2147 #2151
[attach-var-names] #2152 (|x| ; |core!option.Option.|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2153 core!option.Option./Some/0 #64 #65 #2118
[mk-app] #2154 has_type #2153 #65
[mk-app] #2155 => #2117 #2154
[mk-app] #2156 pattern #2153 #2117
[mk-quant] #2157 internal_core!option.Option./Some/0_invariant_definition 3 #2156 #2155
[attach-var-names] #2157 (|x| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2158 or #2124 #2154
[inst-discovered] theory-solving 0x0 basic# ; #2155
[mk-app] #2159 = #2155 #2158
[instance] 0x0 #2159
[attach-enode] #2159 0
[end-of-instance]
[mk-quant] #2159 internal_core!option.Option./Some/0_invariant_definition 3 #2156 #2158
[attach-var-names] #2159 (|x| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2160 height #2143
[mk-app] #2161 height #2111
[mk-app] #2162 height_lt #2160 #2161
[mk-app] #2163 => #2142 #2162
[mk-app] #2164 pattern #2160
[mk-quant] #2165 prelude_datatype_height_core!option.Option./Some/0 3 #2164 #2163
[attach-var-names] #2165 (|x| ; |core!option.Option.|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #2142
[mk-app] #2166 = #2142 #2149
[instance] 0x0 #2166
[attach-enode] #2166 0
[end-of-instance]
[mk-app] #2166 or #2150 #2162
[mk-app] #2167 => #2149 #2162
[inst-discovered] theory-solving 0x0 basic# ; #2167
[mk-app] #2168 = #2167 #2166
[instance] 0x0 #2168
[attach-enode] #2168 0
[end-of-instance]
[mk-quant] #2167 prelude_datatype_height_core!option.Option./Some/0 3 #2164 #2166
[attach-var-names] #2167 (|x| ; |core!option.Option.|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2168 TYPE%core!option.Option. #1560 #1561
[mk-app] #2169 has_type #32 #2168
[mk-app] #2170 has_type #33 #2168
[mk-app] #2171 %Poly%core!option.Option. #32
[mk-app] #2172 is-core!option.Option./None #2171
[mk-app] #2173 is-core!option.Option./None #2118
[mk-app] #2174 and #2169 #2170 #2172 #2173
[mk-app] #2175 ext_eq #1617 #2168 #32 #33
[mk-app] #2176 => #2174 #2175
[mk-app] #2177 pattern #2175
[mk-quant] #2178 internal_core!option.Option./None_ext_equal_definition 5 #2177 #2176
[attach-var-names] #2178 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2179 is #2171
[inst-discovered] theory-solving 0x0 datatype# ; #2172
[mk-app] #2180 = #2172 #2179
[instance] 0x0 #2180
[attach-enode] #2180 0
[end-of-instance]
[mk-app] #2180 is #2118
[inst-discovered] theory-solving 0x0 datatype# ; #2173
[mk-app] #2181 = #2173 #2180
[instance] 0x0 #2181
[attach-enode] #2181 0
[end-of-instance]
[mk-app] #2181 and #2169 #2170 #2179 #2180
[mk-app] #2182 not #2181
[mk-app] #2183 or #2182 #2175
[mk-app] #2184 => #2181 #2175
[inst-discovered] theory-solving 0x0 basic# ; #2184
[mk-app] #2185 = #2184 #2183
[instance] 0x0 #2185
[attach-enode] #2185 0
[end-of-instance]
[mk-quant] #2184 internal_core!option.Option./None_ext_equal_definition 5 #2177 #2183
[attach-var-names] #2184 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2185 is-core!option.Option./Some #2171
[mk-app] #2186 is-core!option.Option./Some #2118
[mk-app] #2187 core!option.Option./Some/0 #1560 #1561 #2171
[mk-app] #2188 core!option.Option./Some/0 #1560 #1561 #2118
[mk-app] #2189 ext_eq #1617 #1561 #2187 #2188
[mk-app] #2190 and #2169 #2170 #2185 #2186 #2189
[mk-app] #2191 => #2190 #2175
[mk-quant] #2192 internal_core!option.Option./Some_ext_equal_definition 5 #2177 #2191
[attach-var-names] #2192 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #2193 is #2171
[inst-discovered] theory-solving 0x0 datatype# ; #2185
[mk-app] #2194 = #2185 #2193
[instance] 0x0 #2194
[attach-enode] #2194 0
[end-of-instance]
[mk-app] #2194 is #2118
[inst-discovered] theory-solving 0x0 datatype# ; #2186
[mk-app] #2195 = #2186 #2194
[instance] 0x0 #2195
[attach-enode] #2195 0
[end-of-instance]
[mk-app] #2195 and #2169 #2170 #2193 #2194 #2189
[mk-app] #2196 not #2195
[mk-app] #2197 or #2196 #2175
[mk-app] #2198 => #2195 #2175
[inst-discovered] theory-solving 0x0 basic# ; #2198
[mk-app] #2199 = #2198 #2197
[instance] 0x0 #2199
[attach-enode] #2199 0
[end-of-instance]
[mk-quant] #2198 internal_core!option.Option./Some_ext_equal_definition 5 #2177 #2197
[attach-var-names] #2198 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-var] #2199 0
[mk-app] #2200 Poly%vstd!std_specs.iter.VerusForLoopWrapper. #2199
[mk-app] #2201 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #2200
[mk-app] #2202 = #2199 #2201
[mk-app] #2203 pattern #2200
[mk-quant] #2204 internal_vstd__std_specs__iter__VerusForLoopWrapper_box_axiom_definition 1 #2203 #2202
[attach-var-names] #2204 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2205 TYPE%vstd!std_specs.iter.VerusForLoopWrapper. #64 #65
[mk-app] #2206 has_type #33 #2205
[mk-app] #2207 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #33
[mk-app] #2208 Poly%vstd!std_specs.iter.VerusForLoopWrapper. #2207
[mk-app] #2209 = #33 #2208
[mk-app] #2210 => #2206 #2209
[mk-app] #2211 pattern #2206
[mk-quant] #2212 internal_vstd__std_specs__iter__VerusForLoopWrapper_unbox_axiom_definition 3 #2211 #2210
[attach-var-names] #2212 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2213 not #2206
[mk-app] #2214 or #2213 #2209
[inst-discovered] theory-solving 0x0 basic# ; #2210
[mk-app] #2215 = #2210 #2214
[instance] 0x0 #2215
[attach-enode] #2215 0
[end-of-instance]
[mk-quant] #2215 internal_vstd__std_specs__iter__VerusForLoopWrapper_unbox_axiom_definition 3 #2211 #2214
[attach-var-names] #2215 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-var] #2216 3
[mk-app] #2217 has_type #43 #1573
[mk-app] #2218 proj%%core!iter.traits.iterator.Iterator./Item #1592 #1573
[mk-app] #2219 proj%core!iter.traits.iterator.Iterator./Item #1592 #1573
[mk-app] #2220 TYPE%vstd!seq.Seq. #2218 #2219
[mk-app] #2221 has_type #33 #2220
[mk-app] #2222 and #2217 #1596 #2221
[mk-app] #2223 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper #2216 #43 #32 #33
[mk-app] #2224 Poly%vstd!std_specs.iter.VerusForLoopWrapper. #2223
[mk-app] #2225 TYPE%vstd!std_specs.iter.VerusForLoopWrapper. #1592 #1573
[mk-app] #2226 has_type #2224 #2225
[mk-app] #2227 => #2222 #2226
[mk-app] #2228 pattern #2226
[mk-quant] #2229 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper_constructor_definition 6 #2228 #2227
[attach-var-names] #2229 (|_history!| ; |Poly|) (|_iter!| ; |Poly|) (|_snapshot!| ; |Poly|) (|_index!| ; |Int|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2230 not #2222
[mk-app] #2231 or #2230 #2226
[inst-discovered] theory-solving 0x0 basic# ; #2227
[mk-app] #2232 = #2227 #2231
[instance] 0x0 #2232
[attach-enode] #2232 0
[end-of-instance]
[mk-quant] #2232 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper_constructor_definition 6 #2228 #2231
[attach-var-names] #2232 (|_history!| ; |Poly|) (|_iter!| ; |Poly|) (|_snapshot!| ; |Poly|) (|_index!| ; |Int|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2233 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/index #2199
[mk-app] #2234 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?index #2199
[mk-app] #2235 = #2233 #2234
[mk-app] #2236 pattern #2233
[mk-quant] #2237 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/index_accessor_definition 1 #2236 #2235
[attach-var-names] #2237 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2238 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #2199
[mk-app] #2239 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?snapshot #2199
[mk-app] #2240 = #2238 #2239
[mk-app] #2241 pattern #2238
[mk-quant] #2242 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot_accessor_definition 1 #2241 #2240
[attach-var-names] #2242 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2243 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #2207
[mk-app] #2244 has_type #2243 #65
[mk-app] #2245 => #2206 #2244
[mk-app] #2246 pattern #2243 #2206
[mk-quant] #2247 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot_invariant_definition 3 #2246 #2245
[attach-var-names] #2247 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2248 or #2213 #2244
[inst-discovered] theory-solving 0x0 basic# ; #2245
[mk-app] #2249 = #2245 #2248
[instance] 0x0 #2249
[attach-enode] #2249 0
[end-of-instance]
[mk-quant] #2249 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot_invariant_definition 3 #2246 #2248
[attach-var-names] #2249 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2250 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #2199
[mk-app] #2251 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?iter #2199
[mk-app] #2252 = #2250 #2251
[mk-app] #2253 pattern #2250
[mk-quant] #2254 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter_accessor_definition 1 #2253 #2252
[attach-var-names] #2254 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2255 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #2207
[mk-app] #2256 has_type #2255 #65
[mk-app] #2257 => #2206 #2256
[mk-app] #2258 pattern #2255 #2206
[mk-quant] #2259 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter_invariant_definition 3 #2258 #2257
[attach-var-names] #2259 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2260 or #2213 #2256
[inst-discovered] theory-solving 0x0 basic# ; #2257
[mk-app] #2261 = #2257 #2260
[instance] 0x0 #2261
[attach-enode] #2261 0
[end-of-instance]
[mk-quant] #2261 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter_invariant_definition 3 #2258 #2260
[attach-var-names] #2261 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2262 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #2199
[mk-app] #2263 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?history #2199
[mk-app] #2264 = #2262 #2263
[mk-app] #2265 pattern #2262
[mk-quant] #2266 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history_accessor_definition 1 #2265 #2264
[attach-var-names] #2266 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2267 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #2207
[mk-app] #2268 proj%%core!iter.traits.iterator.Iterator./Item #64 #65
[mk-app] #2269 proj%core!iter.traits.iterator.Iterator./Item #64 #65
[mk-app] #2270 TYPE%vstd!seq.Seq. #2268 #2269
[mk-app] #2271 has_type #2267 #2270
[mk-app] #2272 => #2206 #2271
[mk-app] #2273 pattern #2267 #2206
[mk-quant] #2274 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history_invariant_definition 3 #2273 #2272
[attach-var-names] #2274 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2275 or #2213 #2271
[inst-discovered] theory-solving 0x0 basic# ; #2272
[mk-app] #2276 = #2272 #2275
[instance] 0x0 #2276
[attach-enode] #2276 0
[end-of-instance]
[mk-quant] #2276 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history_invariant_definition 3 #2273 #2275
[attach-var-names] #2276 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2277 is-vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper #2199
[mk-app] #2278 height #2238
[mk-app] #2279 height #2200
[mk-app] #2280 height_lt #2278 #2279
[mk-app] #2281 => #2277 #2280
[mk-app] #2282 pattern #2278
[mk-quant] #2283 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot 1 #2282 #2281
[attach-var-names] #2283 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2284 is #2199
[inst-discovered] theory-solving 0x0 datatype# ; #2277
[mk-app] #2285 = #2277 #2284
[instance] 0x0 #2285
[attach-enode] #2285 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2284
[mk-app] #2285 = #2284 #1
[instance] 0x0 #2285
[attach-enode] #2285 0
[end-of-instance]
[mk-app] #2285 => #1 #2280
[inst-discovered] theory-solving 0x0 basic# ; #2285
[mk-app] #2286 = #2285 #2280
[instance] 0x0 #2286
[attach-enode] #2286 0
[end-of-instance]
[mk-quant] #2285 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot 1 #2282 #2280
[attach-var-names] #2285 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2284 height #2250
[mk-app] #2286 height_lt #2284 #2279
[mk-app] #2287 => #2277 #2286
[mk-app] #2288 pattern #2284
[mk-quant] #2289 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter 1 #2288 #2287
[attach-var-names] #2289 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2290 is #2199
[inst-discovered] theory-solving 0x0 datatype# ; #2277
[mk-app] #2291 = #2277 #2290
[instance] 0x0 #2291
[attach-enode] #2291 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2290
[mk-app] #2291 = #2290 #1
[instance] 0x0 #2291
[attach-enode] #2291 0
[end-of-instance]
[mk-app] #2291 => #1 #2286
[inst-discovered] theory-solving 0x0 basic# ; #2291
[mk-app] #2292 = #2291 #2286
[instance] 0x0 #2292
[attach-enode] #2292 0
[end-of-instance]
[mk-quant] #2291 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter 1 #2288 #2286
[attach-var-names] #2291 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2290 height #2262
[mk-app] #2292 height_lt #2290 #2279
[mk-app] #2293 => #2277 #2292
[mk-app] #2294 pattern #2290
[mk-quant] #2295 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history 1 #2294 #2293
[attach-var-names] #2295 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #2296 is #2199
[inst-discovered] theory-solving 0x0 datatype# ; #2277
[mk-app] #2297 = #2277 #2296
[instance] 0x0 #2297
[attach-enode] #2297 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2296
[mk-app] #2297 = #2296 #1
[instance] 0x0 #2297
[attach-enode] #2297 0
[end-of-instance]
[mk-app] #2297 => #1 #2292
[inst-discovered] theory-solving 0x0 basic# ; #2297
[mk-app] #2298 = #2297 #2292
[instance] 0x0 #2298
[attach-enode] #2298 0
[end-of-instance]
[mk-quant] #2297 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history 1 #2294 #2292
[attach-var-names] #2297 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-var] #2296 0
[mk-app] #2298 Poly%core!ops.range.Range. #2296
[mk-app] #2299 %Poly%core!ops.range.Range. #2298
[mk-app] #2300 = #2296 #2299
[mk-app] #2301 pattern #2298
[mk-quant] #2302 internal_core__ops__range__Range_box_axiom_definition 1 #2301 #2300
[attach-var-names] #2302 (|x| ; |core!ops.range.Range.|)
[mk-app] #2303 TYPE%core!ops.range.Range. #64 #65
[mk-app] #2304 has_type #33 #2303
[mk-app] #2305 %Poly%core!ops.range.Range. #33
[mk-app] #2306 Poly%core!ops.range.Range. #2305
[mk-app] #2307 = #33 #2306
[mk-app] #2308 => #2304 #2307
[mk-app] #2309 pattern #2304
[mk-quant] #2310 internal_core__ops__range__Range_unbox_axiom_definition 3 #2309 #2308
[attach-var-names] #2310 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2311 not #2304
[mk-app] #2312 or #2311 #2307
[inst-discovered] theory-solving 0x0 basic# ; #2308
[mk-app] #2313 = #2308 #2312
[instance] 0x0 #2313
[attach-enode] #2313 0
[end-of-instance]
[mk-quant] #2313 internal_core__ops__range__Range_unbox_axiom_definition 3 #2309 #2312
[attach-var-names] #2313 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2314 has_type #32 #263
[mk-app] #2315 has_type #33 #263
[mk-app] #2316 and #2314 #2315
[mk-app] #2317 core!ops.range.Range./Range #32 #33
[mk-app] #2318 Poly%core!ops.range.Range. #2317
[mk-app] #2319 TYPE%core!ops.range.Range. #1593 #263
[mk-app] #2320 has_type #2318 #2319
[mk-app] #2321 => #2316 #2320
[mk-app] #2322 pattern #2320
[mk-quant] #2323 internal_core!ops.range.Range./Range_constructor_definition 4 #2322 #2321
[attach-var-names] #2323 (|_end!| ; |Poly|) (|_start!| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2324 not #2316
[mk-app] #2325 or #2324 #2320
[inst-discovered] theory-solving 0x0 basic# ; #2321
[mk-app] #2326 = #2321 #2325
[instance] 0x0 #2326
[attach-enode] #2326 0
[end-of-instance]
[mk-quant] #2326 internal_core!ops.range.Range./Range_constructor_definition 4 #2322 #2325
[attach-var-names] #2326 (|_end!| ; |Poly|) (|_start!| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2327 core!ops.range.Range./Range/start #2296
[mk-app] #2328 core!ops.range.Range./Range/?start #2296
[mk-app] #2329 = #2327 #2328
[mk-app] #2330 pattern #2327
[mk-quant] #2331 internal_core!ops.range.Range./Range/start_accessor_definition 1 #2330 #2329
[attach-var-names] #2331 (|x| ; |core!ops.range.Range.|)
[mk-app] #2332 core!ops.range.Range./Range/start #2305
[mk-app] #2333 has_type #2332 #65
[mk-app] #2334 => #2304 #2333
[mk-app] #2335 pattern #2332 #2304
[mk-quant] #2336 internal_core!ops.range.Range./Range/start_invariant_definition 3 #2335 #2334
[attach-var-names] #2336 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2337 or #2311 #2333
[inst-discovered] theory-solving 0x0 basic# ; #2334
[mk-app] #2338 = #2334 #2337
[instance] 0x0 #2338
[attach-enode] #2338 0
[end-of-instance]
[mk-quant] #2338 internal_core!ops.range.Range./Range/start_invariant_definition 3 #2335 #2337
[attach-var-names] #2338 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2339 core!ops.range.Range./Range/end #2296
[mk-app] #2340 core!ops.range.Range./Range/?end #2296
[mk-app] #2341 = #2339 #2340
[mk-app] #2342 pattern #2339
[mk-quant] #2343 internal_core!ops.range.Range./Range/end_accessor_definition 1 #2342 #2341
[attach-var-names] #2343 (|x| ; |core!ops.range.Range.|)
[mk-app] #2344 core!ops.range.Range./Range/end #2305
[mk-app] #2345 has_type #2344 #65
[mk-app] #2346 => #2304 #2345
[mk-app] #2347 pattern #2344 #2304
[mk-quant] #2348 internal_core!ops.range.Range./Range/end_invariant_definition 3 #2347 #2346
[attach-var-names] #2348 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2349 or #2311 #2345
[inst-discovered] theory-solving 0x0 basic# ; #2346
[mk-app] #2350 = #2346 #2349
[instance] 0x0 #2350
[attach-enode] #2350 0
[end-of-instance]
[mk-quant] #2350 internal_core!ops.range.Range./Range/end_invariant_definition 3 #2347 #2349
[attach-var-names] #2350 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2351 is-core!ops.range.Range./Range #2296
[mk-app] #2352 height #2327
[mk-app] #2353 height #2298
[mk-app] #2354 height_lt #2352 #2353
[mk-app] #2355 => #2351 #2354
[mk-app] #2356 pattern #2352
[mk-quant] #2357 prelude_datatype_height_core!ops.range.Range./Range/start 1 #2356 #2355
[attach-var-names] #2357 (|x| ; |core!ops.range.Range.|)
[mk-app] #2358 is #2296
[inst-discovered] theory-solving 0x0 datatype# ; #2351
[mk-app] #2359 = #2351 #2358
[instance] 0x0 #2359
[attach-enode] #2359 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2358
[mk-app] #2359 = #2358 #1
[instance] 0x0 #2359
[attach-enode] #2359 0
[end-of-instance]
[mk-app] #2359 => #1 #2354
[inst-discovered] theory-solving 0x0 basic# ; #2359
[mk-app] #2360 = #2359 #2354
[instance] 0x0 #2360
[attach-enode] #2360 0
[end-of-instance]
[mk-quant] #2359 prelude_datatype_height_core!ops.range.Range./Range/start 1 #2356 #2354
[attach-var-names] #2359 (|x| ; |core!ops.range.Range.|)
[mk-app] #2358 height #2339
[mk-app] #2360 height_lt #2358 #2353
[mk-app] #2361 => #2351 #2360
[mk-app] #2362 pattern #2358
[mk-quant] #2363 prelude_datatype_height_core!ops.range.Range./Range/end 1 #2362 #2361
[attach-var-names] #2363 (|x| ; |core!ops.range.Range.|)
[mk-app] #2364 is #2296
[inst-discovered] theory-solving 0x0 datatype# ; #2351
[mk-app] #2365 = #2351 #2364
[instance] 0x0 #2365
[attach-enode] #2365 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2364
[mk-app] #2365 = #2364 #1
[instance] 0x0 #2365
[attach-enode] #2365 0
[end-of-instance]
[mk-app] #2365 => #1 #2360
[inst-discovered] theory-solving 0x0 basic# ; #2365
[mk-app] #2366 = #2365 #2360
[instance] 0x0 #2366
[attach-enode] #2366 0
[end-of-instance]
[mk-quant] #2365 prelude_datatype_height_core!ops.range.Range./Range/end 1 #2362 #2360
[attach-var-names] #2365 (|x| ; |core!ops.range.Range.|)
[mk-var] #2364 0
[mk-app] #2366 Poly%vstd!std_specs.range.RangeInclusiveView. #2364
[mk-app] #2367 %Poly%vstd!std_specs.range.RangeInclusiveView. #2366
[mk-app] #2368 = #2364 #2367
[mk-app] #2369 pattern #2366
[mk-quant] #2370 internal_vstd__std_specs__range__RangeInclusiveView_box_axiom_definition 1 #2369 #2368
[attach-var-names] #2370 (|x| ; |vstd!std_specs.range.RangeInclusiveView.|)
[mk-app] #2371 TYPE%vstd!std_specs.range.RangeInclusiveView. #64 #65
[mk-app] #2372 has_type #33 #2371
[mk-app] #2373 %Poly%vstd!std_specs.range.RangeInclusiveView. #33
[mk-app] #2374 Poly%vstd!std_specs.range.RangeInclusiveView. #2373
[mk-app] #2375 = #33 #2374
[mk-app] #2376 => #2372 #2375
[mk-app] #2377 pattern #2372
[mk-quant] #2378 internal_vstd__std_specs__range__RangeInclusiveView_unbox_axiom_definition 3 #2377 #2376
[attach-var-names] #2378 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2379 not #2372
[mk-app] #2380 or #2379 #2375
[inst-discovered] theory-solving 0x0 basic# ; #2376
[mk-app] #2381 = #2376 #2380
[instance] 0x0 #2381
[attach-enode] #2381 0
[end-of-instance]
[mk-quant] #2381 internal_vstd__std_specs__range__RangeInclusiveView_unbox_axiom_definition 3 #2377 #2380
[attach-var-names] #2381 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2382 has_type #43 #1561
[mk-app] #2383 has_type #32 #1561
[mk-app] #2384 and #2382 #2383
[mk-app] #2385 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView #43 #32 #128
[mk-app] #2386 Poly%vstd!std_specs.range.RangeInclusiveView. #2385
[mk-app] #2387 TYPE%vstd!std_specs.range.RangeInclusiveView. #1560 #1561
[mk-app] #2388 has_type #2386 #2387
[mk-app] #2389 => #2384 #2388
[mk-app] #2390 pattern #2388
[mk-quant] #2391 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView_constructor_definition 5 #2390 #2389
[attach-var-names] #2391 (|_exhausted!| ; |Bool|) (|_end!| ; |Poly|) (|_start!| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2392 not #2384
[mk-app] #2393 or #2392 #2388
[inst-discovered] theory-solving 0x0 basic# ; #2389
[mk-app] #2394 = #2389 #2393
[instance] 0x0 #2394
[attach-enode] #2394 0
[end-of-instance]
[mk-quant] #2394 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView_constructor_definition 5 #2390 #2393
[attach-var-names] #2394 (|_exhausted!| ; |Bool|) (|_end!| ; |Poly|) (|_start!| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2395 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/start #2364
[mk-app] #2396 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/?start #2364
[mk-app] #2397 = #2395 #2396
[mk-app] #2398 pattern #2395
[mk-quant] #2399 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/start_accessor_definition 1 #2398 #2397
[attach-var-names] #2399 (|x| ; |vstd!std_specs.range.RangeInclusiveView.|)
[mk-app] #2400 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/start #2373
[mk-app] #2401 has_type #2400 #65
[mk-app] #2402 => #2372 #2401
[mk-app] #2403 pattern #2400 #2372
[mk-quant] #2404 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/start_invariant_definition 3 #2403 #2402
[attach-var-names] #2404 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2405 or #2379 #2401
[inst-discovered] theory-solving 0x0 basic# ; #2402
[mk-app] #2406 = #2402 #2405
[instance] 0x0 #2406
[attach-enode] #2406 0
[end-of-instance]
[mk-quant] #2406 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/start_invariant_definition 3 #2403 #2405
[attach-var-names] #2406 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2407 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/end #2364
[mk-app] #2408 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/?end #2364
[mk-app] #2409 = #2407 #2408
[mk-app] #2410 pattern #2407
[mk-quant] #2411 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/end_accessor_definition 1 #2410 #2409
[attach-var-names] #2411 (|x| ; |vstd!std_specs.range.RangeInclusiveView.|)
[mk-app] #2412 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/end #2373
[mk-app] #2413 has_type #2412 #65
[mk-app] #2414 => #2372 #2413
[mk-app] #2415 pattern #2412 #2372
[mk-quant] #2416 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/end_invariant_definition 3 #2415 #2414
[attach-var-names] #2416 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2417 or #2379 #2413
[inst-discovered] theory-solving 0x0 basic# ; #2414
[mk-app] #2418 = #2414 #2417
[instance] 0x0 #2418
[attach-enode] #2418 0
[end-of-instance]
[mk-quant] #2418 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/end_invariant_definition 3 #2415 #2417
[attach-var-names] #2418 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2419 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/exhausted #2364
[mk-app] #2420 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/?exhausted #2364
[mk-app] #2421 = #2419 #2420
[mk-app] #2422 pattern #2419
[mk-quant] #2423 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/exhausted_accessor_definition 1 #2422 #2421
[attach-var-names] #2423 (|x| ; |vstd!std_specs.range.RangeInclusiveView.|)
[mk-app] #2424 is-vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView #2364
[mk-app] #2425 height #2395
[mk-app] #2426 height #2366
[mk-app] #2427 height_lt #2425 #2426
[mk-app] #2428 => #2424 #2427
[mk-app] #2429 pattern #2425
[mk-quant] #2430 prelude_datatype_height_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/start 1 #2429 #2428
[attach-var-names] #2430 (|x| ; |vstd!std_specs.range.RangeInclusiveView.|)
[mk-app] #2431 is #2364
[inst-discovered] theory-solving 0x0 datatype# ; #2424
[mk-app] #2432 = #2424 #2431
[instance] 0x0 #2432
[attach-enode] #2432 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2431
[mk-app] #2432 = #2431 #1
[instance] 0x0 #2432
[attach-enode] #2432 0
[end-of-instance]
[mk-app] #2432 => #1 #2427
[inst-discovered] theory-solving 0x0 basic# ; #2432
[mk-app] #2433 = #2432 #2427
[instance] 0x0 #2433
[attach-enode] #2433 0
[end-of-instance]
[mk-quant] #2432 prelude_datatype_height_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/start 1 #2429 #2427
[attach-var-names] #2432 (|x| ; |vstd!std_specs.range.RangeInclusiveView.|)
[mk-app] #2431 height #2407
[mk-app] #2433 height_lt #2431 #2426
[mk-app] #2434 => #2424 #2433
[mk-app] #2435 pattern #2431
[mk-quant] #2436 prelude_datatype_height_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/end 1 #2435 #2434
[attach-var-names] #2436 (|x| ; |vstd!std_specs.range.RangeInclusiveView.|)
[mk-app] #2437 is #2364
[inst-discovered] theory-solving 0x0 datatype# ; #2424
[mk-app] #2438 = #2424 #2437
[instance] 0x0 #2438
[attach-enode] #2438 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2437
[mk-app] #2438 = #2437 #1
[instance] 0x0 #2438
[attach-enode] #2438 0
[end-of-instance]
[mk-app] #2438 => #1 #2433
[inst-discovered] theory-solving 0x0 basic# ; #2438
[mk-app] #2439 = #2438 #2433
[instance] 0x0 #2439
[attach-enode] #2439 0
[end-of-instance]
[mk-quant] #2438 prelude_datatype_height_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/end 1 #2435 #2433
[attach-var-names] #2438 (|x| ; |vstd!std_specs.range.RangeInclusiveView.|)
[mk-var] #2437 0
[mk-app] #2439 Poly%vstd!raw_ptr.PtrData. #2437
[mk-app] #2440 %Poly%vstd!raw_ptr.PtrData. #2439
[mk-app] #2441 = #2437 #2440
[mk-app] #2442 pattern #2439
[mk-quant] #2443 internal_vstd__raw_ptr__PtrData_box_axiom_definition 1 #2442 #2441
[attach-var-names] #2443 (|x| ; |vstd!raw_ptr.PtrData.|)
[mk-app] #2444 TYPE%vstd!raw_ptr.PtrData. #64 #65
[mk-app] #2445 has_type #33 #2444
[mk-app] #2446 %Poly%vstd!raw_ptr.PtrData. #33
[mk-app] #2447 Poly%vstd!raw_ptr.PtrData. #2446
[mk-app] #2448 = #33 #2447
[mk-app] #2449 => #2445 #2448
[mk-app] #2450 pattern #2445
[mk-quant] #2451 internal_vstd__raw_ptr__PtrData_unbox_axiom_definition 3 #2450 #2449
[attach-var-names] #2451 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2452 not #2445
[mk-app] #2453 or #2452 #2448
[inst-discovered] theory-solving 0x0 basic# ; #2449
[mk-app] #2454 = #2449 #2453
[instance] 0x0 #2454
[attach-enode] #2454 0
[end-of-instance]
[mk-quant] #2454 internal_vstd__raw_ptr__PtrData_unbox_axiom_definition 3 #2450 #2453
[attach-var-names] #2454 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #2455 2
[mk-var] #2456 1
[mk-app] #2457 uInv #269 #2455
[mk-app] #2458 pointee_metadata% #1560
[mk-app] #2459 has_type #33 #2458
[mk-app] #2460 and #2457 #2459
[mk-app] #2461 vstd!raw_ptr.PtrData./PtrData #2455 #2456 #33
[mk-app] #2462 Poly%vstd!raw_ptr.PtrData. #2461
[mk-app] #2463 TYPE%vstd!raw_ptr.PtrData. #1560 #1561
[mk-app] #2464 has_type #2462 #2463
[mk-app] #2465 => #2460 #2464
[mk-app] #2466 pattern #2464
[mk-quant] #2467 internal_vstd!raw_ptr.PtrData./PtrData_constructor_definition 5 #2466 #2465
[attach-var-names] #2467 (|_metadata!| ; |Poly|) (|_provenance!| ; |vstd!raw_ptr.Provenance.|) (|_addr!| ; |Int|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2468 not #2460
[mk-app] #2469 or #2468 #2464
[inst-discovered] theory-solving 0x0 basic# ; #2465
[mk-app] #2470 = #2465 #2469
[instance] 0x0 #2470
[attach-enode] #2470 0
[end-of-instance]
[mk-quant] #2470 internal_vstd!raw_ptr.PtrData./PtrData_constructor_definition 5 #2466 #2469
[attach-var-names] #2470 (|_metadata!| ; |Poly|) (|_provenance!| ; |vstd!raw_ptr.Provenance.|) (|_addr!| ; |Int|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2471 vstd!raw_ptr.PtrData./PtrData/addr #2437
[mk-app] #2472 vstd!raw_ptr.PtrData./PtrData/?addr #2437
[mk-app] #2473 = #2471 #2472
[mk-app] #2474 pattern #2471
[mk-quant] #2475 internal_vstd!raw_ptr.PtrData./PtrData/addr_accessor_definition 1 #2474 #2473
[attach-var-names] #2475 (|x| ; |vstd!raw_ptr.PtrData.|)
[mk-app] #2476 vstd!raw_ptr.PtrData./PtrData/addr #2446
[mk-app] #2477 uInv #269 #2476
[mk-app] #2478 => #2445 #2477
[mk-app] #2479 pattern #2476 #2445
[mk-quant] #2480 internal_vstd!raw_ptr.PtrData./PtrData/addr_invariant_definition 3 #2479 #2478
[attach-var-names] #2480 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2481 or #2452 #2477
[inst-discovered] theory-solving 0x0 basic# ; #2478
[mk-app] #2482 = #2478 #2481
[instance] 0x0 #2482
[attach-enode] #2482 0
[end-of-instance]
[mk-quant] #2482 internal_vstd!raw_ptr.PtrData./PtrData/addr_invariant_definition 3 #2479 #2481
[attach-var-names] #2482 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2483 vstd!raw_ptr.PtrData./PtrData/provenance #2437
[mk-app] #2484 vstd!raw_ptr.PtrData./PtrData/?provenance #2437
[mk-app] #2485 = #2483 #2484
[mk-app] #2486 pattern #2483
[mk-quant] #2487 internal_vstd!raw_ptr.PtrData./PtrData/provenance_accessor_definition 1 #2486 #2485
[attach-var-names] #2487 (|x| ; |vstd!raw_ptr.PtrData.|)
[mk-app] #2488 vstd!raw_ptr.PtrData./PtrData/metadata #2437
[mk-app] #2489 vstd!raw_ptr.PtrData./PtrData/?metadata #2437
[mk-app] #2490 = #2488 #2489
[mk-app] #2491 pattern #2488
[mk-quant] #2492 internal_vstd!raw_ptr.PtrData./PtrData/metadata_accessor_definition 1 #2491 #2490
[attach-var-names] #2492 (|x| ; |vstd!raw_ptr.PtrData.|)
[mk-app] #2493 vstd!raw_ptr.PtrData./PtrData/metadata #2446
[mk-app] #2494 pointee_metadata% #64
[mk-app] #2495 has_type #2493 #2494
[mk-app] #2496 => #2445 #2495
[mk-app] #2497 pattern #2493 #2445
[mk-quant] #2498 internal_vstd!raw_ptr.PtrData./PtrData/metadata_invariant_definition 3 #2497 #2496
[attach-var-names] #2498 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2499 or #2452 #2495
[inst-discovered] theory-solving 0x0 basic# ; #2496
[mk-app] #2500 = #2496 #2499
[instance] 0x0 #2500
[attach-enode] #2500 0
[end-of-instance]
[mk-quant] #2500 internal_vstd!raw_ptr.PtrData./PtrData/metadata_invariant_definition 3 #2497 #2499
[attach-var-names] #2500 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #2501 0
[mk-app] #2502 Poly%tuple%0. #2501
[mk-app] #2503 %Poly%tuple%0. #2502
[mk-app] #2504 = #2501 #2503
[mk-app] #2505 pattern #2502
[mk-quant] #2506 internal_crate__tuple__0_box_axiom_definition 1 #2505 #2504
[attach-var-names] #2506 (|x| ; |tuple%0.|)
[mk-app] #2507 has_type #33 #1528
[mk-app] #2508 %Poly%tuple%0. #33
[mk-app] #2509 Poly%tuple%0. #2508
[mk-app] #2510 = #33 #2509
[mk-app] #2511 => #2507 #2510
[mk-app] #2512 pattern #2507
[mk-quant] #2513 internal_crate__tuple__0_unbox_axiom_definition 1 #2512 #2511
[attach-var-names] #2513 (|x| ; |Poly|)
[mk-app] #2514 not #2507
[mk-app] #2515 or #2514 #2510
[inst-discovered] theory-solving 0x0 basic# ; #2511
[mk-app] #2516 = #2511 #2515
[instance] 0x0 #2516
[attach-enode] #2516 0
[end-of-instance]
[mk-quant] #2516 internal_crate__tuple__0_unbox_axiom_definition 1 #2512 #2515
[attach-var-names] #2516 (|x| ; |Poly|)
[mk-app] #2517 has_type #2502 #1528
[mk-app] #2518 pattern #2517
[mk-quant] #2519 internal_crate__tuple__0_has_type_always_definition 1 #2518 #2517
[attach-var-names] #2519 (|x| ; |tuple%0.|)
[mk-var] #2520 0
[mk-app] #2521 Poly%tuple%1. #2520
[mk-app] #2522 %Poly%tuple%1. #2521
[mk-app] #2523 = #2520 #2522
[mk-app] #2524 pattern #2521
[mk-quant] #2525 internal_crate__tuple__1_box_axiom_definition 1 #2524 #2523
[attach-var-names] #2525 (|x| ; |tuple%1.|)
[mk-app] #2526 TYPE%tuple%1. #64 #65
[mk-app] #2527 has_type #33 #2526
[mk-app] #2528 %Poly%tuple%1. #33
[mk-app] #2529 Poly%tuple%1. #2528
[mk-app] #2530 = #33 #2529
[mk-app] #2531 => #2527 #2530
[mk-app] #2532 pattern #2527
[mk-quant] #2533 internal_crate__tuple__1_unbox_axiom_definition 3 #2532 #2531
[attach-var-names] #2533 (|x| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2534 not #2527
[mk-app] #2535 or #2534 #2530
[inst-discovered] theory-solving 0x0 basic# ; #2531
[mk-app] #2536 = #2531 #2535
[instance] 0x0 #2536
[attach-enode] #2536 0
[end-of-instance]
[mk-quant] #2536 internal_crate__tuple__1_unbox_axiom_definition 3 #2532 #2535
[attach-var-names] #2536 (|x| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2537 tuple%1./tuple%1 #33
[mk-app] #2538 Poly%tuple%1. #2537
[mk-app] #2539 has_type #2538 #2526
[mk-app] #2540 => #68 #2539
[mk-app] #2541 pattern #2539
[mk-quant] #2542 internal_tuple__1./tuple__1_constructor_definition 3 #2541 #2540
[attach-var-names] #2542 (|_0!| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2543 or #2139 #2539
[inst-discovered] theory-solving 0x0 basic# ; #2540
[mk-app] #2544 = #2540 #2543
[instance] 0x0 #2544
[attach-enode] #2544 0
[end-of-instance]
[mk-quant] #2544 internal_tuple__1./tuple__1_constructor_definition 3 #2541 #2543
[attach-var-names] #2544 (|_0!| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2545 tuple%1./tuple%1/0 #2520
[mk-app] #2546 tuple%1./tuple%1/?0 #2520
[mk-app] #2547 = #2545 #2546
[mk-app] #2548 pattern #2545
[mk-quant] #2549 internal_tuple__1./tuple__1/0_accessor_definition 1 #2548 #2547
[attach-var-names] #2549 (|x| ; |tuple%1.|)
[mk-app] #2550 tuple%1./tuple%1/0 #2528
[mk-app] #2551 has_type #2550 #65
[mk-app] #2552 => #2527 #2551
[mk-app] #2553 pattern #2550 #2527
[mk-quant] #2554 internal_tuple__1./tuple__1/0_invariant_definition 3 #2553 #2552
[attach-var-names] #2554 (|x| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2555 or #2534 #2551
[inst-discovered] theory-solving 0x0 basic# ; #2552
[mk-app] #2556 = #2552 #2555
[instance] 0x0 #2556
[attach-enode] #2556 0
[end-of-instance]
[mk-quant] #2556 internal_tuple__1./tuple__1/0_invariant_definition 3 #2553 #2555
[attach-var-names] #2556 (|x| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2557 is-tuple%1./tuple%1 #2520
[mk-app] #2558 height #2545
[mk-app] #2559 height #2521
[mk-app] #2560 height_lt #2558 #2559
[mk-app] #2561 => #2557 #2560
[mk-app] #2562 pattern #2558
[mk-quant] #2563 prelude_datatype_height_tuple%1./tuple%1/0 1 #2562 #2561
[attach-var-names] #2563 (|x| ; |tuple%1.|)
[mk-app] #2564 is #2520
[inst-discovered] theory-solving 0x0 datatype# ; #2557
[mk-app] #2565 = #2557 #2564
[instance] 0x0 #2565
[attach-enode] #2565 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2564
[mk-app] #2565 = #2564 #1
[instance] 0x0 #2565
[attach-enode] #2565 0
[end-of-instance]
[mk-app] #2565 => #1 #2560
[inst-discovered] theory-solving 0x0 basic# ; #2565
[mk-app] #2566 = #2565 #2560
[instance] 0x0 #2566
[attach-enode] #2566 0
[end-of-instance]
[mk-quant] #2565 prelude_datatype_height_tuple%1./tuple%1/0 1 #2562 #2560
[attach-var-names] #2565 (|x| ; |tuple%1.|)
[mk-app] #2564 TYPE%tuple%1. #1560 #1561
[mk-app] #2566 has_type #32 #2564
[mk-app] #2567 has_type #33 #2564
[mk-app] #2568 %Poly%tuple%1. #32
[mk-app] #2569 tuple%1./tuple%1/0 #2568
[mk-app] #2570 ext_eq #1617 #1561 #2569 #2550
[mk-app] #2571 and #2566 #2567 #2570
[mk-app] #2572 ext_eq #1617 #2564 #32 #33
[mk-app] #2573 => #2571 #2572
[mk-app] #2574 pattern #2572
[mk-quant] #2575 internal_tuple__1./tuple__1_ext_equal_definition 5 #2574 #2573
[attach-var-names] #2575 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2576 not #2571
[mk-app] #2577 or #2576 #2572
[inst-discovered] theory-solving 0x0 basic# ; #2573
[mk-app] #2578 = #2573 #2577
[instance] 0x0 #2578
[attach-enode] #2578 0
[end-of-instance]
[mk-quant] #2578 internal_tuple__1./tuple__1_ext_equal_definition 5 #2574 #2577
[attach-var-names] #2578 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-var] #2579 0
[mk-app] #2580 Poly%tuple%2. #2579
[mk-app] #2581 %Poly%tuple%2. #2580
[mk-app] #2582 = #2579 #2581
[mk-app] #2583 pattern #2580
[mk-quant] #2584 internal_crate__tuple__2_box_axiom_definition 1 #2583 #2582
[attach-var-names] #2584 (|x| ; |tuple%2.|)
[mk-app] #2585 TYPE%tuple%2. #1560 #1561 #64 #65
[mk-app] #2586 has_type #33 #2585
[mk-app] #2587 %Poly%tuple%2. #33
[mk-app] #2588 Poly%tuple%2. #2587
[mk-app] #2589 = #33 #2588
[mk-app] #2590 => #2586 #2589
[mk-app] #2591 pattern #2586
[mk-quant] #2592 internal_crate__tuple__2_unbox_axiom_definition 5 #2591 #2590
[attach-var-names] #2592 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2593 not #2586
[mk-app] #2594 or #2593 #2589
[inst-discovered] theory-solving 0x0 basic# ; #2590
[mk-app] #2595 = #2590 #2594
[instance] 0x0 #2595
[attach-enode] #2595 0
[end-of-instance]
[mk-quant] #2595 internal_crate__tuple__2_unbox_axiom_definition 5 #2591 #2594
[attach-var-names] #2595 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2596 and #1596 #2315
[mk-app] #2597 tuple%2./tuple%2 #32 #33
[mk-app] #2598 Poly%tuple%2. #2597
[mk-app] #2599 TYPE%tuple%2. #1592 #1573 #1593 #263
[mk-app] #2600 has_type #2598 #2599
[mk-app] #2601 => #2596 #2600
[mk-app] #2602 pattern #2600
[mk-quant] #2603 internal_tuple__2./tuple__2_constructor_definition 6 #2602 #2601
[attach-var-names] #2603 (|_1!| ; |Poly|) (|_0!| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2604 not #2596
[mk-app] #2605 or #2604 #2600
[inst-discovered] theory-solving 0x0 basic# ; #2601
[mk-app] #2606 = #2601 #2605
[instance] 0x0 #2606
[attach-enode] #2606 0
[end-of-instance]
[mk-quant] #2606 internal_tuple__2./tuple__2_constructor_definition 6 #2602 #2605
[attach-var-names] #2606 (|_1!| ; |Poly|) (|_0!| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2607 tuple%2./tuple%2/0 #2579
[mk-app] #2608 tuple%2./tuple%2/?0 #2579
[mk-app] #2609 = #2607 #2608
[mk-app] #2610 pattern #2607
[mk-quant] #2611 internal_tuple__2./tuple__2/0_accessor_definition 1 #2610 #2609
[attach-var-names] #2611 (|x| ; |tuple%2.|)
[mk-app] #2612 tuple%2./tuple%2/0 #2587
[mk-app] #2613 has_type #2612 #1561
[mk-app] #2614 => #2586 #2613
[mk-app] #2615 pattern #2612 #2586
[mk-quant] #2616 internal_tuple__2./tuple__2/0_invariant_definition 5 #2615 #2614
[attach-var-names] #2616 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2617 or #2593 #2613
[inst-discovered] theory-solving 0x0 basic# ; #2614
[mk-app] #2618 = #2614 #2617
[instance] 0x0 #2618
[attach-enode] #2618 0
[end-of-instance]
[mk-quant] #2618 internal_tuple__2./tuple__2/0_invariant_definition 5 #2615 #2617
[attach-var-names] #2618 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2619 tuple%2./tuple%2/1 #2579
[mk-app] #2620 tuple%2./tuple%2/?1 #2579
[mk-app] #2621 = #2619 #2620
[mk-app] #2622 pattern #2619
[mk-quant] #2623 internal_tuple__2./tuple__2/1_accessor_definition 1 #2622 #2621
[attach-var-names] #2623 (|x| ; |tuple%2.|)
[mk-app] #2624 tuple%2./tuple%2/1 #2587
[mk-app] #2625 has_type #2624 #65
[mk-app] #2626 => #2586 #2625
[mk-app] #2627 pattern #2624 #2586
[mk-quant] #2628 internal_tuple__2./tuple__2/1_invariant_definition 5 #2627 #2626
[attach-var-names] #2628 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2629 or #2593 #2625
[inst-discovered] theory-solving 0x0 basic# ; #2626
[mk-app] #2630 = #2626 #2629
[instance] 0x0 #2630
[attach-enode] #2630 0
[end-of-instance]
[mk-quant] #2630 internal_tuple__2./tuple__2/1_invariant_definition 5 #2627 #2629
[attach-var-names] #2630 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2631 is-tuple%2./tuple%2 #2579
[mk-app] #2632 height #2607
[mk-app] #2633 height #2580
[mk-app] #2634 height_lt #2632 #2633
[mk-app] #2635 => #2631 #2634
[mk-app] #2636 pattern #2632
[mk-quant] #2637 prelude_datatype_height_tuple%2./tuple%2/0 1 #2636 #2635
[attach-var-names] #2637 (|x| ; |tuple%2.|)
[mk-app] #2638 is #2579
[inst-discovered] theory-solving 0x0 datatype# ; #2631
[mk-app] #2639 = #2631 #2638
[instance] 0x0 #2639
[attach-enode] #2639 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2638
[mk-app] #2639 = #2638 #1
[instance] 0x0 #2639
[attach-enode] #2639 0
[end-of-instance]
[mk-app] #2639 => #1 #2634
[inst-discovered] theory-solving 0x0 basic# ; #2639
[mk-app] #2640 = #2639 #2634
[instance] 0x0 #2640
[attach-enode] #2640 0
[end-of-instance]
[mk-quant] #2639 prelude_datatype_height_tuple%2./tuple%2/0 1 #2636 #2634
[attach-var-names] #2639 (|x| ; |tuple%2.|)
[mk-app] #2638 height #2619
[mk-app] #2640 height_lt #2638 #2633
[mk-app] #2641 => #2631 #2640
[mk-app] #2642 pattern #2638
[mk-quant] #2643 prelude_datatype_height_tuple%2./tuple%2/1 1 #2642 #2641
[attach-var-names] #2643 (|x| ; |tuple%2.|)
[mk-app] #2644 is #2579
[inst-discovered] theory-solving 0x0 datatype# ; #2631
[mk-app] #2645 = #2631 #2644
[instance] 0x0 #2645
[attach-enode] #2645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2644
[mk-app] #2645 = #2644 #1
[instance] 0x0 #2645
[attach-enode] #2645 0
[end-of-instance]
[mk-app] #2645 => #1 #2640
[inst-discovered] theory-solving 0x0 basic# ; #2645
[mk-app] #2646 = #2645 #2640
[instance] 0x0 #2646
[attach-enode] #2646 0
[end-of-instance]
[mk-quant] #2645 prelude_datatype_height_tuple%2./tuple%2/1 1 #2642 #2640
[attach-var-names] #2645 (|x| ; |tuple%2.|)
[mk-app] #2644 TYPE%tuple%2. #1615 #1616 #1560 #1561
[mk-app] #2646 has_type #32 #2644
[mk-app] #2647 has_type #33 #2644
[mk-app] #2648 %Poly%tuple%2. #32
[mk-app] #2649 tuple%2./tuple%2/0 #2648
[mk-app] #2650 ext_eq #1617 #1616 #2649 #2612
[mk-app] #2651 tuple%2./tuple%2/1 #2648
[mk-app] #2652 ext_eq #1617 #1561 #2651 #2624
[mk-app] #2653 and #2646 #2647 #2650 #2652
[mk-app] #2654 ext_eq #1617 #2644 #32 #33
[mk-app] #2655 => #2653 #2654
[mk-app] #2656 pattern #2654
[mk-quant] #2657 internal_tuple__2./tuple__2_ext_equal_definition 7 #2656 #2655
[attach-var-names] #2657 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2658 not #2653
[mk-app] #2659 or #2658 #2654
[inst-discovered] theory-solving 0x0 basic# ; #2655
[mk-app] #2660 = #2655 #2659
[instance] 0x0 #2660
[attach-enode] #2660 0
[end-of-instance]
[mk-quant] #2660 internal_tuple__2./tuple__2_ext_equal_definition 7 #2656 #2659
[attach-var-names] #2660 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2661 array_new #1593 #263 #219 #156
[mk-app] #2662 = #2661 #1643
[mk-app] #2663 pattern #2661
[mk-quant] #2664 prelude_array_new 4 #2663 #2662
[attach-var-names] #2664 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2665 < #122 #2455
[mk-app] #2666 and #339 #2665
[mk-app] #2667 %%apply%%1 #1575 #122
[mk-app] #2668 has_type #2667 #1561
[mk-app] #2669 => #2666 #2668
[mk-app] #2670 pattern #2668
[mk-quant] #2671 prelude_has_type_array_elts 1 #2670 #2669
[attach-var-names] #2671 (|i| ; |Int|)
[mk-app] #2672 CONST_INT #219
[mk-app] #2673 ARRAY #1593 #263 #120 #2672
[mk-app] #2674 has_type #2661 #2673
[mk-app] #2675 => #2671 #2674
[mk-quant] #2676 prelude_has_type_array_new 4 #2663 #2675
[attach-var-names] #2676 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #2677 * #365 #122
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #2677 = #339 #348
[instance] 0x0 #2677
[attach-enode] #2677 0
[end-of-instance]
[mk-app] #2677 <= #2455 #122
[mk-app] #2678 not #2677
[inst-discovered] theory-solving 0x0 arith# ; #2665
[mk-app] #2679 = #2665 #2678
[instance] 0x0 #2679
[attach-enode] #2679 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #2679 * #365 #122
[mk-app] #2680 + #2679 #2455
[attach-meaning] #365 arith (- 1)
[mk-app] #2681 * #365 #2455
[mk-app] #2682 + #122 #2681
[mk-app] #2679 >= #2682 #336
[inst-discovered] theory-solving 0x0 arith# ; #2677
[mk-app] #2680 = #2677 #2679
[instance] 0x0 #2680
[attach-enode] #2680 0
[end-of-instance]
[mk-app] #2680 not #2679
[mk-app] #2683 and #348 #2680
[mk-app] #2684 not #2683
[mk-app] #2685 or #2684 #2668
[mk-app] #2686 => #2683 #2668
[inst-discovered] theory-solving 0x0 basic# ; #2686
[mk-app] #2687 = #2686 #2685
[instance] 0x0 #2687
[attach-enode] #2687 0
[end-of-instance]
[mk-quant] #2686 prelude_has_type_array_elts 1 #2670 #2685
[attach-var-names] #2686 (|i| ; |Int|)
[mk-app] #2677 not #2686
[mk-app] #2678 or #2677 #2674
[mk-app] #2687 => #2686 #2674
[inst-discovered] theory-solving 0x0 basic# ; #2687
[mk-app] #2688 = #2687 #2678
[instance] 0x0 #2688
[attach-enode] #2688 0
[end-of-instance]
[mk-quant] #2687 prelude_has_type_array_new 4 #2663 #2678
[attach-var-names] #2687 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2688 Poly%array%. #1575
[mk-app] #2689 ARRAY #1615 #1616 #1593 #263
[mk-app] #2690 has_type #2688 #2689
[mk-app] #2691 and #2690 #185
[mk-app] #2692 array_index #1615 #1616 #1560 #263 #1575 #33
[mk-app] #2693 has_type #2692 #1616
[mk-app] #2694 => #2691 #2693
[mk-app] #2695 pattern #2692 #2690
[mk-quant] #2696 prelude_has_type_array_index 7 #2695 #2694
[attach-var-names] #2696 (|i| ; |Poly|) (|Fn| ; |%%Function%%|) (|N| ; |Type|) (|Ndcr| ; |Dcr|) (|Nd| ; |Dcr|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2697 not #2691
[mk-app] #2698 or #2697 #2693
[inst-discovered] theory-solving 0x0 basic# ; #2694
[mk-app] #2699 = #2694 #2698
[instance] 0x0 #2699
[attach-enode] #2699 0
[end-of-instance]
[mk-quant] #2699 prelude_has_type_array_index 7 #2695 #2698
[attach-var-names] #2699 (|i| ; |Poly|) (|Fn| ; |%%Function%%|) (|N| ; |Type|) (|Ndcr| ; |Dcr|) (|Nd| ; |Dcr|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2700 CONST_INT #2455
[mk-app] #2701 array_index #1560 #1561 #120 #2700 #1575 #165
[mk-app] #2702 = #2701 #2667
[mk-app] #2703 array_new #1560 #1561 #2455 #1575
[mk-app] #2704 pattern #2703 #2667
[mk-quant] #2705 prelude_array_index_trigger 5 #2704 #2702
[attach-var-names] #2705 (|i| ; |Int|) (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2706 has_type #33 #66
[mk-app] #2707 has_resolved #120 #66 #33
[mk-app] #2708 and #2706 #2707
[mk-app] #2709 mut_ref_current% #33
[mk-app] #2710 mut_ref_future% #33
[mk-app] #2711 = #2709 #2710
[mk-app] #2712 => #2708 #2711
[mk-app] #2713 pattern #2707
[mk-quant] #2714 prelude_resolved_mut_ref 3 #2713 #2712
[attach-var-names] #2714 (|x| ; |Poly|) (|t| ; |Type|) (|d| ; |Dcr|)
[mk-app] #2715 not #2708
[mk-app] #2716 or #2715 #2711
[inst-discovered] theory-solving 0x0 basic# ; #2712
[mk-app] #2717 = #2712 #2716
[instance] 0x0 #2717
[attach-enode] #2717 0
[end-of-instance]
[mk-quant] #2717 prelude_resolved_mut_ref 3 #2713 #2716
[attach-var-names] #2717 (|x| ; |Poly|) (|t| ; |Type|) (|d| ; |Dcr|)
[mk-app] #2718 has_resolved #120 #2205 #33
[mk-app] #2719 GHOST #120
[mk-app] #2720 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/index #2207
[mk-app] #2721 I #2720
[mk-app] #2722 has_resolved #2719 #184 #2721
[mk-app] #2723 => #2718 #2722
[mk-app] #2724 => #2206 #2723
[mk-app] #2725 pattern #2718 #2720
[mk-quant] #2726 user_no_function_0 3 #2725 #2724
[attach-var-names] #2726 (|x$| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2727 not #2718
[mk-app] #2728 or #2727 #2722
[inst-discovered] theory-solving 0x0 basic# ; #2723
[mk-app] #2729 = #2723 #2728
[instance] 0x0 #2729
[attach-enode] #2729 0
[end-of-instance]
[mk-app] #2729 or #2213 #2727 #2722
[mk-app] #2730 => #2206 #2728
[inst-discovered] theory-solving 0x0 basic# ; #2730
[mk-app] #2731 = #2730 #2729
[instance] 0x0 #2731
[attach-enode] #2731 0
[end-of-instance]
[mk-quant] #2728 user_no_function_0 3 #2725 #2729
[attach-var-names] #2728 (|x$| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2730 GHOST #64
[mk-app] #2731 has_resolved #2730 #65 #2243
[mk-app] #2732 => #2718 #2731
[mk-app] #2733 => #2206 #2732
[mk-app] #2734 pattern #2718 #2243
[mk-quant] #2735 user_no_function_1 3 #2734 #2733
[attach-var-names] #2735 (|x$| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2736 or #2727 #2731
[inst-discovered] theory-solving 0x0 basic# ; #2732
[mk-app] #2737 = #2732 #2736
[instance] 0x0 #2737
[attach-enode] #2737 0
[end-of-instance]
[mk-app] #2737 or #2213 #2727 #2731
[mk-app] #2738 => #2206 #2736
[inst-discovered] theory-solving 0x0 basic# ; #2738
[mk-app] #2739 = #2738 #2737
[instance] 0x0 #2739
[attach-enode] #2739 0
[end-of-instance]
[mk-quant] #2736 user_no_function_1 3 #2734 #2737
[attach-var-names] #2736 (|x$| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2738 has_resolved #64 #65 #2255
[mk-app] #2739 => #2718 #2738
[mk-app] #2740 => #2206 #2739
[mk-app] #2741 pattern #2718 #2255
[mk-quant] #2742 user_no_function_2 3 #2741 #2740
[attach-var-names] #2742 (|x$| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2743 or #2727 #2738
[inst-discovered] theory-solving 0x0 basic# ; #2739
[mk-app] #2744 = #2739 #2743
[instance] 0x0 #2744
[attach-enode] #2744 0
[end-of-instance]
[mk-app] #2744 or #2213 #2727 #2738
[mk-app] #2745 => #2206 #2743
[inst-discovered] theory-solving 0x0 basic# ; #2745
[mk-app] #2746 = #2745 #2744
[instance] 0x0 #2746
[attach-enode] #2746 0
[end-of-instance]
[mk-quant] #2743 user_no_function_2 3 #2741 #2744
[attach-var-names] #2743 (|x$| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2745 has_resolved #2719 #2270 #2267
[mk-app] #2746 => #2718 #2745
[mk-app] #2747 => #2206 #2746
[mk-app] #2748 pattern #2718 #2267
[mk-quant] #2749 user_no_function_3 3 #2748 #2747
[attach-var-names] #2749 (|x$| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2750 or #2727 #2745
[inst-discovered] theory-solving 0x0 basic# ; #2746
[mk-app] #2751 = #2746 #2750
[instance] 0x0 #2751
[attach-enode] #2751 0
[end-of-instance]
[mk-app] #2751 or #2213 #2727 #2745
[mk-app] #2752 => #2206 #2750
[inst-discovered] theory-solving 0x0 basic# ; #2752
[mk-app] #2753 = #2752 #2751
[instance] 0x0 #2753
[attach-enode] #2753 0
[end-of-instance]
[mk-quant] #2750 user_no_function_3 3 #2748 #2751
[attach-var-names] #2750 (|x$| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #2752 has_resolved #120 #2303 #33
[mk-app] #2753 has_resolved #64 #65 #2332
[mk-app] #2754 => #2752 #2753
[mk-app] #2755 => #2304 #2754
[mk-app] #2756 pattern #2752 #2332
[mk-quant] #2757 user_no_function_4 3 #2756 #2755
[attach-var-names] #2757 (|x$| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2758 not #2752
[mk-app] #2759 or #2758 #2753
[inst-discovered] theory-solving 0x0 basic# ; #2754
[mk-app] #2760 = #2754 #2759
[instance] 0x0 #2760
[attach-enode] #2760 0
[end-of-instance]
[mk-app] #2760 or #2311 #2758 #2753
[mk-app] #2761 => #2304 #2759
[inst-discovered] theory-solving 0x0 basic# ; #2761
[mk-app] #2762 = #2761 #2760
[instance] 0x0 #2762
[attach-enode] #2762 0
[end-of-instance]
[mk-quant] #2759 user_no_function_4 3 #2756 #2760
[attach-var-names] #2759 (|x$| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2761 has_resolved #64 #65 #2344
[mk-app] #2762 => #2752 #2761
[mk-app] #2763 => #2304 #2762
[mk-app] #2764 pattern #2752 #2344
[mk-quant] #2765 user_no_function_5 3 #2764 #2763
[attach-var-names] #2765 (|x$| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2766 or #2758 #2761
[inst-discovered] theory-solving 0x0 basic# ; #2762
[mk-app] #2767 = #2762 #2766
[instance] 0x0 #2767
[attach-enode] #2767 0
[end-of-instance]
[mk-app] #2767 or #2311 #2758 #2761
[mk-app] #2768 => #2304 #2766
[inst-discovered] theory-solving 0x0 basic# ; #2768
[mk-app] #2769 = #2768 #2767
[instance] 0x0 #2769
[attach-enode] #2769 0
[end-of-instance]
[mk-quant] #2766 user_no_function_5 3 #2764 #2767
[attach-var-names] #2766 (|x$| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-var] #2768 4
[mk-app] #2769 F #2768
[mk-app] #2770 FNDEF%core!cmp.PartialOrd.partial_cmp. #1593 #263 #44 #45
[mk-app] #2771 has_type #2769 #2770
[mk-app] #2772 pattern #2771
[mk-quant] #2773 prelude_has_type_fndef_FNDEF%core!cmp.PartialOrd.partial_cmp. 5 #2772 #2771
[attach-var-names] #2773 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|x| ; |fndef|)
[mk-var] #2774 2
[mk-app] #2775 F #2774
[mk-app] #2776 FNDEF%core!iter.traits.iterator.Iterator.next. #44 #45
[mk-app] #2777 has_type #2775 #2776
[mk-app] #2778 pattern #2777
[mk-quant] #2779 prelude_has_type_fndef_FNDEF%core!iter.traits.iterator.Iterator.next. 3 #2778 #2777
[attach-var-names] #2779 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|x| ; |fndef|)
[mk-app] #2780 tr_bound%vstd!array.ArrayAdditionalSpecFns. #1593 #263 #44 #45
[mk-app] #2781 tr_bound%vstd!view.View. #1593 #263
[mk-app] #2782 proj%%vstd!view.View./V #1593 #263
[mk-app] #2783 = #120 #2782
[mk-app] #2784 TYPE%vstd!seq.Seq. #44 #45
[mk-app] #2785 proj%vstd!view.View./V #1593 #263
[mk-app] #2786 = #2784 #2785
[mk-app] #2787 and #2783 #2786
[mk-app] #2788 sized #44
[mk-app] #2789 and #2781 #2787 #2788
[mk-app] #2790 => #2780 #2789
[mk-app] #2791 pattern #2780
[mk-quant] #2792 internal_vstd__array__ArrayAdditionalSpecFns_trait_type_bounds_definition 4 #2791 #2790
[attach-var-names] #2792 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2793 and #2781 #2783 #2786 #2788
[mk-app] #2794 not #2780
[mk-app] #2795 or #2794 #2793
[mk-app] #2796 => #2780 #2793
[inst-discovered] theory-solving 0x0 basic# ; #2796
[mk-app] #2797 = #2796 #2795
[instance] 0x0 #2797
[attach-enode] #2797 0
[end-of-instance]
[mk-quant] #2796 internal_vstd__array__ArrayAdditionalSpecFns_trait_type_bounds_definition 4 #2791 #2795
[attach-var-names] #2796 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2797 tr_bound%vstd!pervasive.FnWithRequiresEnsures. #1592 #1573 #1593 #263 #44 #45
[mk-app] #2798 sized #1592
[mk-app] #2799 sized #1593
[mk-app] #2800 and #2798 #2799 #2788
[mk-app] #2801 => #2797 #2800
[mk-app] #2802 pattern #2797
[mk-quant] #2803 internal_vstd__pervasive__FnWithRequiresEnsures_trait_type_bounds_definition 6 #2802 #2801
[attach-var-names] #2803 (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2804 not #2797
[mk-app] #2805 or #2804 #2800
[inst-discovered] theory-solving 0x0 basic# ; #2801
[mk-app] #2806 = #2801 #2805
[instance] 0x0 #2806
[attach-enode] #2806 0
[end-of-instance]
[mk-quant] #2806 internal_vstd__pervasive__FnWithRequiresEnsures_trait_type_bounds_definition 6 #2802 #2805
[attach-var-names] #2806 (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2807 tr_bound%vstd!slice.SliceAdditionalSpecFns. #1593 #263 #44 #45
[mk-app] #2808 => #2807 #2789
[mk-app] #2809 pattern #2807
[mk-quant] #2810 internal_vstd__slice__SliceAdditionalSpecFns_trait_type_bounds_definition 4 #2809 #2808
[attach-var-names] #2810 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2811 not #2807
[mk-app] #2812 or #2811 #2793
[mk-app] #2813 => #2807 #2793
[inst-discovered] theory-solving 0x0 basic# ; #2813
[mk-app] #2814 = #2813 #2812
[instance] 0x0 #2814
[attach-enode] #2814 0
[end-of-instance]
[mk-quant] #2813 internal_vstd__slice__SliceAdditionalSpecFns_trait_type_bounds_definition 4 #2809 #2812
[attach-var-names] #2813 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2814 tr_bound%vstd!view.View. #44 #45
[mk-app] #2815 proj%%vstd!view.View./V #44 #45
[mk-app] #2816 sized #2815
[mk-app] #2817 => #2814 #2816
[mk-app] #2818 pattern #2814
[mk-quant] #2819 internal_vstd__view__View_trait_type_bounds_definition 2 #2818 #2817
[attach-var-names] #2819 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2820 not #2814
[mk-app] #2821 or #2820 #2816
[inst-discovered] theory-solving 0x0 basic# ; #2817
[mk-app] #2822 = #2817 #2821
[instance] 0x0 #2822
[attach-enode] #2822 0
[end-of-instance]
[mk-quant] #2822 internal_vstd__view__View_trait_type_bounds_definition 2 #2818 #2821
[attach-var-names] #2822 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2823 tr_bound%core!clone.Clone. #44 #45
[mk-app] #2824 => #2823 #2788
[mk-app] #2825 pattern #2823
[mk-quant] #2826 internal_core__clone__Clone_trait_type_bounds_definition 2 #2825 #2824
[attach-var-names] #2826 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2827 not #2823
[mk-app] #2828 or #2827 #2788
[inst-discovered] theory-solving 0x0 basic# ; #2824
[mk-app] #2829 = #2824 #2828
[instance] 0x0 #2829
[attach-enode] #2829 0
[end-of-instance]
[mk-quant] #2829 internal_core__clone__Clone_trait_type_bounds_definition 2 #2825 #2828
[attach-var-names] #2829 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2830 tr_bound%core!marker.Copy. #44 #45
[mk-app] #2831 => #2830 #2823
[mk-app] #2832 pattern #2830
[mk-quant] #2833 internal_core__marker__Copy_trait_type_bounds_definition 2 #2832 #2831
[attach-var-names] #2833 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2834 not #2830
[mk-app] #2835 or #2834 #2823
[inst-discovered] theory-solving 0x0 basic# ; #2831
[mk-app] #2836 = #2831 #2835
[instance] 0x0 #2836
[attach-enode] #2836 0
[end-of-instance]
[mk-quant] #2836 internal_core__marker__Copy_trait_type_bounds_definition 2 #2832 #2835
[attach-var-names] #2836 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2837 tr_bound%core!cmp.PartialEq. #1593 #263 #44 #45
[mk-app] #2838 pattern #2837
[mk-quant] #2839 internal_core__cmp__PartialEq_trait_type_bounds_definition 4 #2838 #1
[attach-var-names] #2839 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2840 tr_bound%core!cmp.PartialOrd. #1593 #263 #44 #45
[mk-app] #2841 => #2840 #2837
[mk-app] #2842 pattern #2840
[mk-quant] #2843 internal_core__cmp__PartialOrd_trait_type_bounds_definition 4 #2842 #2841
[attach-var-names] #2843 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2844 not #2840
[mk-app] #2845 or #2844 #2837
[inst-discovered] theory-solving 0x0 basic# ; #2841
[mk-app] #2846 = #2841 #2845
[instance] 0x0 #2846
[attach-enode] #2846 0
[end-of-instance]
[mk-quant] #2846 internal_core__cmp__PartialOrd_trait_type_bounds_definition 4 #2842 #2845
[attach-var-names] #2846 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2847 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #1593 #263 #44 #45
[mk-app] #2848 => #2847 #2837
[mk-app] #2849 pattern #2847
[mk-quant] #2850 internal_vstd__std_specs__cmp__PartialEqSpec_trait_type_bounds_definition 4 #2849 #2848
[attach-var-names] #2850 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2851 not #2847
[mk-app] #2852 or #2851 #2837
[inst-discovered] theory-solving 0x0 basic# ; #2848
[mk-app] #2853 = #2848 #2852
[instance] 0x0 #2853
[attach-enode] #2853 0
[end-of-instance]
[mk-quant] #2853 internal_vstd__std_specs__cmp__PartialEqSpec_trait_type_bounds_definition 4 #2849 #2852
[attach-var-names] #2853 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2854 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #1593 #263 #44 #45
[mk-app] #2855 and #2837 #2840
[mk-app] #2856 => #2854 #2855
[mk-app] #2857 pattern #2854
[mk-quant] #2858 internal_vstd__std_specs__cmp__PartialOrdSpec_trait_type_bounds_definition 4 #2857 #2856
[attach-var-names] #2858 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2859 not #2854
[mk-app] #2860 or #2859 #2855
[inst-discovered] theory-solving 0x0 basic# ; #2856
[mk-app] #2861 = #2856 #2860
[instance] 0x0 #2861
[attach-enode] #2861 0
[end-of-instance]
[mk-quant] #2861 internal_vstd__std_specs__cmp__PartialOrdSpec_trait_type_bounds_definition 4 #2857 #2860
[attach-var-names] #2861 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2862 tr_bound%core!marker.Tuple. #44 #45
[mk-app] #2863 pattern #2862
[mk-quant] #2864 internal_core__marker__Tuple_trait_type_bounds_definition 2 #2863 #1
[attach-var-names] #2864 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2865 tr_bound%core!ops.function.FnOnce. #1593 #263 #44 #45
[mk-app] #2866 proj%%core!ops.function.FnOnce./Output #1593 #263 #44 #45
[mk-app] #2867 sized #2866
[mk-app] #2868 and #2788 #2862 #2867
[mk-app] #2869 => #2865 #2868
[mk-app] #2870 pattern #2865
[mk-quant] #2871 internal_core__ops__function__FnOnce_trait_type_bounds_definition 4 #2870 #2869
[attach-var-names] #2871 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2872 not #2865
[mk-app] #2873 or #2872 #2868
[inst-discovered] theory-solving 0x0 basic# ; #2869
[mk-app] #2874 = #2869 #2873
[instance] 0x0 #2874
[attach-enode] #2874 0
[end-of-instance]
[mk-quant] #2874 internal_core__ops__function__FnOnce_trait_type_bounds_definition 4 #2870 #2873
[attach-var-names] #2874 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2875 tr_bound%core!ops.function.FnMut. #1593 #263 #44 #45
[mk-app] #2876 and #2865 #2788 #2862
[mk-app] #2877 => #2875 #2876
[mk-app] #2878 pattern #2875
[mk-quant] #2879 internal_core__ops__function__FnMut_trait_type_bounds_definition 4 #2878 #2877
[attach-var-names] #2879 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2880 not #2875
[mk-app] #2881 or #2880 #2876
[inst-discovered] theory-solving 0x0 basic# ; #2877
[mk-app] #2882 = #2877 #2881
[instance] 0x0 #2882
[attach-enode] #2882 0
[end-of-instance]
[mk-quant] #2882 internal_core__ops__function__FnMut_trait_type_bounds_definition 4 #2878 #2881
[attach-var-names] #2882 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2883 tr_bound%core!ops.function.Fn. #1593 #263 #44 #45
[mk-app] #2884 and #2875 #2788 #2862
[mk-app] #2885 => #2883 #2884
[mk-app] #2886 pattern #2883
[mk-quant] #2887 internal_core__ops__function__Fn_trait_type_bounds_definition 4 #2886 #2885
[attach-var-names] #2887 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2888 not #2883
[mk-app] #2889 or #2888 #2884
[inst-discovered] theory-solving 0x0 basic# ; #2885
[mk-app] #2890 = #2885 #2889
[instance] 0x0 #2890
[attach-enode] #2890 0
[end-of-instance]
[mk-quant] #2890 internal_core__ops__function__Fn_trait_type_bounds_definition 4 #2886 #2889
[attach-var-names] #2890 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2891 tr_bound%core!alloc.Allocator. #44 #45
[mk-app] #2892 pattern #2891
[mk-quant] #2893 internal_core__alloc__Allocator_trait_type_bounds_definition 2 #2892 #1
[attach-var-names] #2893 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2894 tr_bound%core!iter.traits.iterator.Iterator. #44 #45
[mk-app] #2895 proj%%core!iter.traits.iterator.Iterator./Item #44 #45
[mk-app] #2896 sized #2895
[mk-app] #2897 => #2894 #2896
[mk-app] #2898 pattern #2894
[mk-quant] #2899 internal_core__iter__traits__iterator__Iterator_trait_type_bounds_definition 2 #2898 #2897
[attach-var-names] #2899 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2900 not #2894
[mk-app] #2901 or #2900 #2896
[inst-discovered] theory-solving 0x0 basic# ; #2897
[mk-app] #2902 = #2897 #2901
[instance] 0x0 #2902
[attach-enode] #2902 0
[end-of-instance]
[mk-quant] #2902 internal_core__iter__traits__iterator__Iterator_trait_type_bounds_definition 2 #2898 #2901
[attach-var-names] #2902 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2903 tr_bound%core!iter.traits.double_ended.DoubleEndedIterator. #44 #45
[mk-app] #2904 => #2903 #2894
[mk-app] #2905 pattern #2903
[mk-quant] #2906 internal_core__iter__traits__double_ended__DoubleEndedIterator_trait_type_bounds_definition 2 #2905 #2904
[attach-var-names] #2906 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2907 not #2903
[mk-app] #2908 or #2907 #2894
[inst-discovered] theory-solving 0x0 basic# ; #2904
[mk-app] #2909 = #2904 #2908
[instance] 0x0 #2909
[attach-enode] #2909 0
[end-of-instance]
[mk-quant] #2909 internal_core__iter__traits__double_ended__DoubleEndedIterator_trait_type_bounds_definition 2 #2905 #2908
[attach-var-names] #2909 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2910 tr_bound%core!iter.traits.collect.IntoIterator. #44 #45
[mk-app] #2911 proj%%core!iter.traits.collect.IntoIterator./Item #44 #45
[mk-app] #2912 sized #2911
[mk-app] #2913 proj%%core!iter.traits.collect.IntoIterator./IntoIter #44 #45
[mk-app] #2914 proj%core!iter.traits.collect.IntoIterator./IntoIter #44 #45
[mk-app] #2915 proj%%core!iter.traits.iterator.Iterator./Item #2913 #2914
[mk-app] #2916 = #2911 #2915
[mk-app] #2917 proj%core!iter.traits.collect.IntoIterator./Item #44 #45
[mk-app] #2918 proj%core!iter.traits.iterator.Iterator./Item #2913 #2914
[mk-app] #2919 = #2917 #2918
[mk-app] #2920 and #2916 #2919
[mk-app] #2921 tr_bound%core!iter.traits.iterator.Iterator. #2913 #2914
[mk-app] #2922 sized #2913
[mk-app] #2923 and #2912 #2920 #2921 #2922
[mk-app] #2924 => #2910 #2923
[mk-app] #2925 pattern #2910
[mk-quant] #2926 internal_core__iter__traits__collect__IntoIterator_trait_type_bounds_definition 2 #2925 #2924
[attach-var-names] #2926 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2927 and #2912 #2916 #2919 #2921 #2922
[mk-app] #2928 not #2910
[mk-app] #2929 or #2928 #2927
[mk-app] #2930 => #2910 #2927
[inst-discovered] theory-solving 0x0 basic# ; #2930
[mk-app] #2931 = #2930 #2929
[instance] 0x0 #2931
[attach-enode] #2931 0
[end-of-instance]
[mk-quant] #2930 internal_core__iter__traits__collect__IntoIterator_trait_type_bounds_definition 2 #2925 #2929
[attach-var-names] #2930 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2931 tr_bound%core!iter.range.Step. #44 #45
[mk-app] #2932 tr_bound%core!cmp.PartialOrd. #44 #45 #44 #45
[mk-app] #2933 and #2788 #2823 #2932
[mk-app] #2934 => #2931 #2933
[mk-app] #2935 pattern #2931
[mk-quant] #2936 internal_core__iter__range__Step_trait_type_bounds_definition 2 #2935 #2934
[attach-var-names] #2936 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2937 not #2931
[mk-app] #2938 or #2937 #2933
[inst-discovered] theory-solving 0x0 basic# ; #2934
[mk-app] #2939 = #2934 #2938
[instance] 0x0 #2939
[attach-enode] #2939 0
[end-of-instance]
[mk-quant] #2939 internal_core__iter__range__Step_trait_type_bounds_definition 2 #2935 #2938
[attach-var-names] #2939 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2940 tr_bound%vstd!std_specs.iter.IteratorSpec. #44 #45
[mk-app] #2941 => #2940 #2894
[mk-app] #2942 pattern #2940
[mk-quant] #2943 internal_vstd__std_specs__iter__IteratorSpec_trait_type_bounds_definition 2 #2942 #2941
[attach-var-names] #2943 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2944 not #2940
[mk-app] #2945 or #2944 #2894
[inst-discovered] theory-solving 0x0 basic# ; #2941
[mk-app] #2946 = #2941 #2945
[instance] 0x0 #2946
[attach-enode] #2946 0
[end-of-instance]
[mk-quant] #2946 internal_vstd__std_specs__iter__IteratorSpec_trait_type_bounds_definition 2 #2942 #2945
[attach-var-names] #2946 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2947 tr_bound%vstd!std_specs.iter.DoubleEndedIteratorSpec. #44 #45
[mk-app] #2948 and #2894 #2903
[mk-app] #2949 => #2947 #2948
[mk-app] #2950 pattern #2947
[mk-quant] #2951 internal_vstd__std_specs__iter__DoubleEndedIteratorSpec_trait_type_bounds_definition 2 #2950 #2949
[attach-var-names] #2951 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2952 not #2947
[mk-app] #2953 or #2952 #2948
[inst-discovered] theory-solving 0x0 basic# ; #2949
[mk-app] #2954 = #2949 #2953
[instance] 0x0 #2954
[attach-enode] #2954 0
[end-of-instance]
[mk-quant] #2954 internal_vstd__std_specs__iter__DoubleEndedIteratorSpec_trait_type_bounds_definition 2 #2950 #2953
[attach-var-names] #2954 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2955 tr_bound%vstd!std_specs.iter.StepSpec. #44 #45
[mk-app] #2956 and #2788 #2823 #2932 #2931
[mk-app] #2957 => #2955 #2956
[mk-app] #2958 pattern #2955
[mk-quant] #2959 internal_vstd__std_specs__iter__StepSpec_trait_type_bounds_definition 2 #2958 #2957
[attach-var-names] #2959 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2960 not #2955
[mk-app] #2961 or #2960 #2956
[inst-discovered] theory-solving 0x0 basic# ; #2957
[mk-app] #2962 = #2957 #2961
[instance] 0x0 #2962
[attach-enode] #2962 0
[end-of-instance]
[mk-quant] #2962 internal_vstd__std_specs__iter__StepSpec_trait_type_bounds_definition 2 #2958 #2961
[attach-var-names] #2962 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2963 tr_bound%core!ops.arith.Neg. #44 #45
[mk-app] #2964 proj%%core!ops.arith.Neg./Output #44 #45
[mk-app] #2965 sized #2964
[mk-app] #2966 => #2963 #2965
[mk-app] #2967 pattern #2963
[mk-quant] #2968 internal_core__ops__arith__Neg_trait_type_bounds_definition 2 #2967 #2966
[attach-var-names] #2968 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2969 not #2963
[mk-app] #2970 or #2969 #2965
[inst-discovered] theory-solving 0x0 basic# ; #2966
[mk-app] #2971 = #2966 #2970
[instance] 0x0 #2971
[attach-enode] #2971 0
[end-of-instance]
[mk-quant] #2971 internal_core__ops__arith__Neg_trait_type_bounds_definition 2 #2967 #2970
[attach-var-names] #2971 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2972 tr_bound%vstd!std_specs.ops.NegSpec. #44 #45
[mk-app] #2973 => #2972 #2963
[mk-app] #2974 pattern #2972
[mk-quant] #2975 internal_vstd__std_specs__ops__NegSpec_trait_type_bounds_definition 2 #2974 #2973
[attach-var-names] #2975 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2976 not #2972
[mk-app] #2977 or #2976 #2963
[inst-discovered] theory-solving 0x0 basic# ; #2973
[mk-app] #2978 = #2973 #2977
[instance] 0x0 #2978
[attach-enode] #2978 0
[end-of-instance]
[mk-quant] #2978 internal_vstd__std_specs__ops__NegSpec_trait_type_bounds_definition 2 #2974 #2977
[attach-var-names] #2978 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2979 tr_bound%core!ops.arith.Add. #1593 #263 #44 #45
[mk-app] #2980 proj%%core!ops.arith.Add./Output #1593 #263 #44 #45
[mk-app] #2981 sized #2980
[mk-app] #2982 and #2788 #2981
[mk-app] #2983 => #2979 #2982
[mk-app] #2984 pattern #2979
[mk-quant] #2985 internal_core__ops__arith__Add_trait_type_bounds_definition 4 #2984 #2983
[attach-var-names] #2985 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2986 not #2979
[mk-app] #2987 or #2986 #2982
[inst-discovered] theory-solving 0x0 basic# ; #2983
[mk-app] #2988 = #2983 #2987
[instance] 0x0 #2988
[attach-enode] #2988 0
[end-of-instance]
[mk-quant] #2988 internal_core__ops__arith__Add_trait_type_bounds_definition 4 #2984 #2987
[attach-var-names] #2988 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2989 tr_bound%vstd!std_specs.ops.AddSpec. #1593 #263 #44 #45
[mk-app] #2990 and #2979 #2788
[mk-app] #2991 => #2989 #2990
[mk-app] #2992 pattern #2989
[mk-quant] #2993 internal_vstd__std_specs__ops__AddSpec_trait_type_bounds_definition 4 #2992 #2991
[attach-var-names] #2993 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2994 not #2989
[mk-app] #2995 or #2994 #2990
[inst-discovered] theory-solving 0x0 basic# ; #2991
[mk-app] #2996 = #2991 #2995
[instance] 0x0 #2996
[attach-enode] #2996 0
[end-of-instance]
[mk-quant] #2996 internal_vstd__std_specs__ops__AddSpec_trait_type_bounds_definition 4 #2992 #2995
[attach-var-names] #2996 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2997 tr_bound%core!ops.arith.AddAssign. #1593 #263 #44 #45
[mk-app] #2998 => #2997 #2788
[mk-app] #2999 pattern #2997
[mk-quant] #3000 internal_core__ops__arith__AddAssign_trait_type_bounds_definition 4 #2999 #2998
[attach-var-names] #3000 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3001 not #2997
[mk-app] #3002 or #3001 #2788
[inst-discovered] theory-solving 0x0 basic# ; #2998
[mk-app] #3003 = #2998 #3002
[instance] 0x0 #3003
[attach-enode] #3003 0
[end-of-instance]
[mk-quant] #3003 internal_core__ops__arith__AddAssign_trait_type_bounds_definition 4 #2999 #3002
[attach-var-names] #3003 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3004 tr_bound%vstd!std_specs.ops.AddAssignSpec. #1593 #263 #44 #45
[mk-app] #3005 and #2997 #2788
[mk-app] #3006 => #3004 #3005
[mk-app] #3007 pattern #3004
[mk-quant] #3008 internal_vstd__std_specs__ops__AddAssignSpec_trait_type_bounds_definition 4 #3007 #3006
[attach-var-names] #3008 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3009 not #3004
[mk-app] #3010 or #3009 #3005
[inst-discovered] theory-solving 0x0 basic# ; #3006
[mk-app] #3011 = #3006 #3010
[instance] 0x0 #3011
[attach-enode] #3011 0
[end-of-instance]
[mk-quant] #3011 internal_vstd__std_specs__ops__AddAssignSpec_trait_type_bounds_definition 4 #3007 #3010
[attach-var-names] #3011 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3012 tr_bound%core!ops.arith.Sub. #1593 #263 #44 #45
[mk-app] #3013 proj%%core!ops.arith.Sub./Output #1593 #263 #44 #45
[mk-app] #3014 sized #3013
[mk-app] #3015 and #2788 #3014
[mk-app] #3016 => #3012 #3015
[mk-app] #3017 pattern #3012
[mk-quant] #3018 internal_core__ops__arith__Sub_trait_type_bounds_definition 4 #3017 #3016
[attach-var-names] #3018 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3019 not #3012
[mk-app] #3020 or #3019 #3015
[inst-discovered] theory-solving 0x0 basic# ; #3016
[mk-app] #3021 = #3016 #3020
[instance] 0x0 #3021
[attach-enode] #3021 0
[end-of-instance]
[mk-quant] #3021 internal_core__ops__arith__Sub_trait_type_bounds_definition 4 #3017 #3020
[attach-var-names] #3021 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3022 tr_bound%vstd!std_specs.ops.SubSpec. #1593 #263 #44 #45
[mk-app] #3023 and #3012 #2788
[mk-app] #3024 => #3022 #3023
[mk-app] #3025 pattern #3022
[mk-quant] #3026 internal_vstd__std_specs__ops__SubSpec_trait_type_bounds_definition 4 #3025 #3024
[attach-var-names] #3026 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3027 not #3022
[mk-app] #3028 or #3027 #3023
[inst-discovered] theory-solving 0x0 basic# ; #3024
[mk-app] #3029 = #3024 #3028
[instance] 0x0 #3029
[attach-enode] #3029 0
[end-of-instance]
[mk-quant] #3029 internal_vstd__std_specs__ops__SubSpec_trait_type_bounds_definition 4 #3025 #3028
[attach-var-names] #3029 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3030 tr_bound%core!ops.arith.SubAssign. #1593 #263 #44 #45
[mk-app] #3031 => #3030 #2788
[mk-app] #3032 pattern #3030
[mk-quant] #3033 internal_core__ops__arith__SubAssign_trait_type_bounds_definition 4 #3032 #3031
[attach-var-names] #3033 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3034 not #3030
[mk-app] #3035 or #3034 #2788
[inst-discovered] theory-solving 0x0 basic# ; #3031
[mk-app] #3036 = #3031 #3035
[instance] 0x0 #3036
[attach-enode] #3036 0
[end-of-instance]
[mk-quant] #3036 internal_core__ops__arith__SubAssign_trait_type_bounds_definition 4 #3032 #3035
[attach-var-names] #3036 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3037 tr_bound%vstd!std_specs.ops.SubAssignSpec. #1593 #263 #44 #45
[mk-app] #3038 and #3030 #2788
[mk-app] #3039 => #3037 #3038
[mk-app] #3040 pattern #3037
[mk-quant] #3041 internal_vstd__std_specs__ops__SubAssignSpec_trait_type_bounds_definition 4 #3040 #3039
[attach-var-names] #3041 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3042 not #3037
[mk-app] #3043 or #3042 #3038
[inst-discovered] theory-solving 0x0 basic# ; #3039
[mk-app] #3044 = #3039 #3043
[instance] 0x0 #3044
[attach-enode] #3044 0
[end-of-instance]
[mk-quant] #3044 internal_vstd__std_specs__ops__SubAssignSpec_trait_type_bounds_definition 4 #3040 #3043
[attach-var-names] #3044 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3045 tr_bound%core!ops.arith.Mul. #1593 #263 #44 #45
[mk-app] #3046 proj%%core!ops.arith.Mul./Output #1593 #263 #44 #45
[mk-app] #3047 sized #3046
[mk-app] #3048 and #2788 #3047
[mk-app] #3049 => #3045 #3048
[mk-app] #3050 pattern #3045
[mk-quant] #3051 internal_core__ops__arith__Mul_trait_type_bounds_definition 4 #3050 #3049
[attach-var-names] #3051 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3052 not #3045
[mk-app] #3053 or #3052 #3048
[inst-discovered] theory-solving 0x0 basic# ; #3049
[mk-app] #3054 = #3049 #3053
[instance] 0x0 #3054
[attach-enode] #3054 0
[end-of-instance]
[mk-quant] #3054 internal_core__ops__arith__Mul_trait_type_bounds_definition 4 #3050 #3053
[attach-var-names] #3054 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3055 tr_bound%vstd!std_specs.ops.MulSpec. #1593 #263 #44 #45
[mk-app] #3056 and #3045 #2788
[mk-app] #3057 => #3055 #3056
[mk-app] #3058 pattern #3055
[mk-quant] #3059 internal_vstd__std_specs__ops__MulSpec_trait_type_bounds_definition 4 #3058 #3057
[attach-var-names] #3059 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3060 not #3055
[mk-app] #3061 or #3060 #3056
[inst-discovered] theory-solving 0x0 basic# ; #3057
[mk-app] #3062 = #3057 #3061
[instance] 0x0 #3062
[attach-enode] #3062 0
[end-of-instance]
[mk-quant] #3062 internal_vstd__std_specs__ops__MulSpec_trait_type_bounds_definition 4 #3058 #3061
[attach-var-names] #3062 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3063 tr_bound%core!ops.arith.Div. #1593 #263 #44 #45
[mk-app] #3064 proj%%core!ops.arith.Div./Output #1593 #263 #44 #45
[mk-app] #3065 sized #3064
[mk-app] #3066 and #2788 #3065
[mk-app] #3067 => #3063 #3066
[mk-app] #3068 pattern #3063
[mk-quant] #3069 internal_core__ops__arith__Div_trait_type_bounds_definition 4 #3068 #3067
[attach-var-names] #3069 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3070 not #3063
[mk-app] #3071 or #3070 #3066
[inst-discovered] theory-solving 0x0 basic# ; #3067
[mk-app] #3072 = #3067 #3071
[instance] 0x0 #3072
[attach-enode] #3072 0
[end-of-instance]
[mk-quant] #3072 internal_core__ops__arith__Div_trait_type_bounds_definition 4 #3068 #3071
[attach-var-names] #3072 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3073 tr_bound%vstd!std_specs.ops.DivSpec. #1593 #263 #44 #45
[mk-app] #3074 and #3063 #2788
[mk-app] #3075 => #3073 #3074
[mk-app] #3076 pattern #3073
[mk-quant] #3077 internal_vstd__std_specs__ops__DivSpec_trait_type_bounds_definition 4 #3076 #3075
[attach-var-names] #3077 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3078 not #3073
[mk-app] #3079 or #3078 #3074
[inst-discovered] theory-solving 0x0 basic# ; #3075
[mk-app] #3080 = #3075 #3079
[instance] 0x0 #3080
[attach-enode] #3080 0
[end-of-instance]
[mk-quant] #3080 internal_vstd__std_specs__ops__DivSpec_trait_type_bounds_definition 4 #3076 #3079
[attach-var-names] #3080 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3081 tr_bound%vstd!std_specs.option.OptionAdditionalFns. #1593 #263 #44 #45
[mk-app] #3082 and #2799 #2788
[mk-app] #3083 => #3081 #3082
[mk-app] #3084 pattern #3081
[mk-quant] #3085 internal_vstd__std_specs__option__OptionAdditionalFns_trait_type_bounds_definition 4 #3084 #3083
[attach-var-names] #3085 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3086 not #3081
[mk-app] #3087 or #3086 #3082
[inst-discovered] theory-solving 0x0 basic# ; #3083
[mk-app] #3088 = #3083 #3087
[instance] 0x0 #3088
[attach-enode] #3088 0
[end-of-instance]
[mk-quant] #3088 internal_vstd__std_specs__option__OptionAdditionalFns_trait_type_bounds_definition 4 #3084 #3087
[attach-var-names] #3088 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3089 tr_bound%vstd!std_specs.vec.VecAdditionalSpecFns. #1593 #263 #44 #45
[mk-app] #3090 => #3089 #2789
[mk-app] #3091 pattern #3089
[mk-quant] #3092 internal_vstd__std_specs__vec__VecAdditionalSpecFns_trait_type_bounds_definition 4 #3091 #3090
[attach-var-names] #3092 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3093 not #3089
[mk-app] #3094 or #3093 #2793
[mk-app] #3095 => #3089 #2793
[inst-discovered] theory-solving 0x0 basic# ; #3095
[mk-app] #3096 = #3095 #3094
[instance] 0x0 #3096
[attach-enode] #3096 0
[end-of-instance]
[mk-quant] #3095 internal_vstd__std_specs__vec__VecAdditionalSpecFns_trait_type_bounds_definition 4 #3091 #3094
[attach-var-names] #3095 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3096 tr_bound%core!num.nonzero.ZeroablePrimitive. #44 #45
[mk-app] #3097 and #2788 #2830
[mk-app] #3098 => #3096 #3097
[mk-app] #3099 pattern #3096
[mk-quant] #3100 internal_core__num__nonzero__ZeroablePrimitive_trait_type_bounds_definition 2 #3099 #3098
[attach-var-names] #3100 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3101 not #3096
[mk-app] #3102 or #3101 #3097
[inst-discovered] theory-solving 0x0 basic# ; #3098
[mk-app] #3103 = #3098 #3102
[instance] 0x0 #3103
[attach-enode] #3103 0
[end-of-instance]
[mk-quant] #3103 internal_core__num__nonzero__ZeroablePrimitive_trait_type_bounds_definition 2 #3099 #3102
[attach-var-names] #3103 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3104 tr_bound%vstd!std_specs.nonzero.ZeroablePrimitiveSpec. #44 #45
[mk-app] #3105 and #2788 #2830 #3096
[mk-app] #3106 => #3104 #3105
[mk-app] #3107 pattern #3104
[mk-quant] #3108 internal_vstd__std_specs__nonzero__ZeroablePrimitiveSpec_trait_type_bounds_definition 2 #3107 #3106
[attach-var-names] #3108 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3109 not #3104
[mk-app] #3110 or #3109 #3105
[inst-discovered] theory-solving 0x0 basic# ; #3106
[mk-app] #3111 = #3106 #3110
[instance] 0x0 #3111
[attach-enode] #3111 0
[end-of-instance]
[mk-quant] #3111 internal_vstd__std_specs__nonzero__ZeroablePrimitiveSpec_trait_type_bounds_definition 2 #3107 #3110
[attach-var-names] #3111 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3112 tr_bound%g1!g.Zero. #44 #45
[mk-app] #3113 => #3112 #2788
[mk-app] #3114 pattern #3112
[mk-quant] #3115 internal_g1__g__Zero_trait_type_bounds_definition 2 #3114 #3113
[attach-var-names] #3115 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3116 not #3112
[mk-app] #3117 or #3116 #2788
[inst-discovered] theory-solving 0x0 basic# ; #3113
[mk-app] #3118 = #3113 #3117
[instance] 0x0 #3118
[attach-enode] #3118 0
[end-of-instance]
[mk-quant] #3118 internal_g1__g__Zero_trait_type_bounds_definition 2 #3114 #3117
[attach-var-names] #3118 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3119 tr_bound%g1!g.One. #44 #45
[mk-app] #3120 => #3119 #2788
[mk-app] #3121 pattern #3119
[mk-quant] #3122 internal_g1__g__One_trait_type_bounds_definition 2 #3121 #3120
[attach-var-names] #3122 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3123 not #3119
[mk-app] #3124 or #3123 #2788
[inst-discovered] theory-solving 0x0 basic# ; #3120
[mk-app] #3125 = #3120 #3124
[instance] 0x0 #3125
[attach-enode] #3125 0
[end-of-instance]
[mk-quant] #3125 internal_g1__g__One_trait_type_bounds_definition 2 #3121 #3124
[attach-var-names] #3125 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3126 tr_bound%g1!g.Index. #1593 #263 #44 #45
[mk-app] #3127 proj%%g1!g.Index./Output #1593 #263 #44 #45
[mk-app] #3128 sized #3127
[mk-app] #3129 and #2788 #3128
[mk-app] #3130 => #3126 #3129
[mk-app] #3131 pattern #3126
[mk-quant] #3132 internal_g1__g__Index_trait_type_bounds_definition 4 #3131 #3130
[attach-var-names] #3132 (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3133 not #3126
[mk-app] #3134 or #3133 #3129
[inst-discovered] theory-solving 0x0 basic# ; #3130
[mk-app] #3135 = #3130 #3134
[instance] 0x0 #3135
[attach-enode] #3135 0
[end-of-instance]
[mk-quant] #3135 internal_g1__g__Index_trait_type_bounds_definition 4 #3131 #3134
[attach-var-names] #3135 (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3136 tr_bound%g1!g.IndexMut. #1593 #263 #44 #45
[mk-app] #3137 and #3126 #2788
[mk-app] #3138 => #3136 #3137
[mk-app] #3139 pattern #3136
[mk-quant] #3140 internal_g1__g__IndexMut_trait_type_bounds_definition 4 #3139 #3138
[attach-var-names] #3140 (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3141 not #3136
[mk-app] #3142 or #3141 #3137
[inst-discovered] theory-solving 0x0 basic# ; #3138
[mk-app] #3143 = #3138 #3142
[instance] 0x0 #3143
[attach-enode] #3143 0
[end-of-instance]
[mk-quant] #3143 internal_g1__g__IndexMut_trait_type_bounds_definition 4 #3139 #3142
[attach-var-names] #3143 (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3144 tr_bound%g1!g.MatrixDataTypeBase. #44 #45
[mk-app] #3145 tr_bound%core!ops.arith.Add. #44 #45 #44 #45
[mk-app] #3146 proj%%core!ops.arith.Add./Output #44 #45 #44 #45
[mk-app] #3147 = #44 #3146
[mk-app] #3148 proj%core!ops.arith.Add./Output #44 #45 #44 #45
[mk-app] #3149 = #45 #3148
[mk-app] #3150 and #3147 #3149
[mk-app] #3151 tr_bound%vstd!std_specs.ops.AddSpec. #44 #45 #44 #45
[mk-app] #3152 tr_bound%core!ops.arith.Sub. #44 #45 #44 #45
[mk-app] #3153 proj%%core!ops.arith.Sub./Output #44 #45 #44 #45
[mk-app] #3154 = #44 #3153
[mk-app] #3155 proj%core!ops.arith.Sub./Output #44 #45 #44 #45
[mk-app] #3156 = #45 #3155
[mk-app] #3157 and #3154 #3156
[mk-app] #3158 tr_bound%vstd!std_specs.ops.SubSpec. #44 #45 #44 #45
[mk-app] #3159 tr_bound%core!ops.arith.Mul. #44 #45 #44 #45
[mk-app] #3160 proj%%core!ops.arith.Mul./Output #44 #45 #44 #45
[mk-app] #3161 = #44 #3160
[mk-app] #3162 proj%core!ops.arith.Mul./Output #44 #45 #44 #45
[mk-app] #3163 = #45 #3162
[mk-app] #3164 and #3161 #3163
[mk-app] #3165 tr_bound%vstd!std_specs.ops.MulSpec. #44 #45 #44 #45
[mk-app] #3166 tr_bound%core!ops.arith.Div. #44 #45 #44 #45
[mk-app] #3167 proj%%core!ops.arith.Div./Output #44 #45 #44 #45
[mk-app] #3168 = #44 #3167
[mk-app] #3169 proj%core!ops.arith.Div./Output #44 #45 #44 #45
[mk-app] #3170 = #45 #3169
[mk-app] #3171 and #3168 #3170
[mk-app] #3172 tr_bound%vstd!std_specs.ops.DivSpec. #44 #45 #44 #45
[mk-app] #3173 = #44 #2964
[mk-app] #3174 proj%core!ops.arith.Neg./Output #44 #45
[mk-app] #3175 = #45 #3174
[mk-app] #3176 and #3173 #3175
[mk-app] #3177 tr_bound%core!ops.arith.AddAssign. #44 #45 #44 #45
[mk-app] #3178 tr_bound%vstd!std_specs.ops.AddAssignSpec. #44 #45 #44 #45
[mk-app] #3179 tr_bound%core!ops.arith.SubAssign. #44 #45 #44 #45
[mk-app] #3180 tr_bound%vstd!std_specs.ops.SubAssignSpec. #44 #45 #44 #45
[mk-app] #3181 tr_bound%core!cmp.PartialEq. #44 #45 #44 #45
[mk-app] #3182 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #44 #45 #44 #45
[mk-app] #3183 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #44 #45 #44 #45
[mk-app] #3184 and #2788 #2830 #3112 #3119 #3145 #3150 #3151 #3152 #3157 #3158 #3159 #3164 #3165 #3166 #3171 #3172 #2963 #3176 #2972 #3177 #3178 #3179 #3180 #3181 #3182 #2932 #3183
[mk-app] #3185 => #3144 #3184
[mk-app] #3186 pattern #3144
[mk-quant] #3187 internal_g1__g__MatrixDataTypeBase_trait_type_bounds_definition 2 #3186 #3185
[attach-var-names] #3187 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3188 and #2788 #2830 #3112 #3119 #3145 #3147 #3149 #3151 #3152 #3154 #3156 #3158 #3159 #3161 #3163 #3165 #3166 #3168 #3170 #3172 #2963 #3173 #3175 #2972 #3177 #3178 #3179 #3180 #3181 #3182 #2932 #3183
[mk-app] #3189 not #3144
[mk-app] #3190 or #3189 #3188
[mk-app] #3191 => #3144 #3188
[inst-discovered] theory-solving 0x0 basic# ; #3191
[mk-app] #3192 = #3191 #3190
[instance] 0x0 #3192
[attach-enode] #3192 0
[end-of-instance]
[mk-quant] #3191 internal_g1__g__MatrixDataTypeBase_trait_type_bounds_definition 2 #3186 #3190
[attach-var-names] #3191 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3192 tr_bound%g1!matrix.data_type.MatrixDataType. #44 #45
[mk-app] #3193 => #3192 #3144
[mk-app] #3194 pattern #3192
[mk-quant] #3195 internal_g1__matrix__data_type__MatrixDataType_trait_type_bounds_definition 2 #3194 #3193
[attach-var-names] #3195 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3196 not #3192
[mk-app] #3197 or #3196 #3144
[inst-discovered] theory-solving 0x0 basic# ; #3193
[mk-app] #3198 = #3193 #3197
[instance] 0x0 #3198
[attach-enode] #3198 0
[end-of-instance]
[mk-quant] #3198 internal_g1__matrix__data_type__MatrixDataType_trait_type_bounds_definition 2 #3194 #3197
[attach-var-names] #3198 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-var] #3199 7
[mk-app] #3200 tr_bound%g1!matrix.traits.AsMatrix. #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3201 const_int #1573
[mk-app] #3202 uInv #269 #3201
[mk-app] #3203 const_int #263
[mk-app] #3204 uInv #269 #3203
[mk-app] #3205 proj%%g1!matrix.traits.AsMatrix./Target #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3206 proj%g1!matrix.traits.AsMatrix./Target #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3207 tr_bound%g1!matrix.traits.Matrix. #3205 #3206 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3208 proj%%g1!g.Index./Output #3205 #3206 #120 #203
[mk-app] #3209 = #44 #3208
[mk-app] #3210 proj%g1!g.Index./Output #3205 #3206 #120 #203
[mk-app] #3211 = #45 #3210
[mk-app] #3212 and #3209 #3211
[mk-app] #3213 tr_bound%g1!g.Index. #3205 #3206 #120 #203
[mk-app] #3214 tr_bound%g1!matrix.row_major.RowMajorSequentialData. #3205 #3206 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3215 sized #3205
[mk-app] #3216 and #3202 #3204 #2788 #3207 #3212 #3213 #3214 #3215
[mk-app] #3217 => #3200 #3216
[mk-app] #3218 pattern #3200
[mk-quant] #3219 internal_g1__matrix__traits__AsMatrix_trait_type_bounds_definition 8 #3218 #3217
[attach-var-names] #3219 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3220 and #3202 #3204 #2788 #3207 #3209 #3211 #3213 #3214 #3215
[mk-app] #3221 not #3200
[mk-app] #3222 or #3221 #3220
[mk-app] #3223 => #3200 #3220
[inst-discovered] theory-solving 0x0 basic# ; #3223
[mk-app] #3224 = #3223 #3222
[instance] 0x0 #3224
[attach-enode] #3224 0
[end-of-instance]
[mk-quant] #3223 internal_g1__matrix__traits__AsMatrix_trait_type_bounds_definition 8 #3218 #3222
[attach-var-names] #3223 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3224 tr_bound%g1!matrix.traits.AsMatrixMut. #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3225 proj%%g1!matrix.traits.AsMatrixMut./TargetMut #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3226 proj%g1!matrix.traits.AsMatrixMut./TargetMut #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3227 tr_bound%g1!matrix.traits.MatrixMut. #3225 #3226 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3228 proj%%g1!g.Index./Output #3225 #3226 #120 #203
[mk-app] #3229 = #44 #3228
[mk-app] #3230 proj%g1!g.Index./Output #3225 #3226 #120 #203
[mk-app] #3231 = #45 #3230
[mk-app] #3232 and #3229 #3231
[mk-app] #3233 tr_bound%g1!g.IndexMut. #3225 #3226 #120 #203
[mk-app] #3234 tr_bound%g1!g.Index. #3225 #3226 #120 #203
[mk-app] #3235 tr_bound%g1!matrix.row_major.RowMajorSequentialDataMut. #3225 #3226 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3236 tr_bound%g1!matrix.row_major.RowMajorSequentialData. #3225 #3226 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3237 tr_bound%g1!matrix.traits.Matrix. #3225 #3226 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3238 sized #3225
[mk-app] #3239 and #3200 #3202 #3204 #2788 #3227 #3232 #3233 #3234 #3235 #3236 #3237 #3238
[mk-app] #3240 => #3224 #3239
[mk-app] #3241 pattern #3224
[mk-quant] #3242 internal_g1__matrix__traits__AsMatrixMut_trait_type_bounds_definition 8 #3241 #3240
[attach-var-names] #3242 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3243 and #3200 #3202 #3204 #2788 #3227 #3229 #3231 #3233 #3234 #3235 #3236 #3237 #3238
[mk-app] #3244 not #3224
[mk-app] #3245 or #3244 #3243
[mk-app] #3246 => #3224 #3243
[inst-discovered] theory-solving 0x0 basic# ; #3246
[mk-app] #3247 = #3246 #3245
[instance] 0x0 #3247
[attach-enode] #3247 0
[end-of-instance]
[mk-quant] #3246 internal_g1__matrix__traits__AsMatrixMut_trait_type_bounds_definition 8 #3241 #3245
[attach-var-names] #3246 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3247 tr_bound%g1!matrix.traits.Matrix. #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3248 tr_bound%g1!matrix.row_major.RowMajorSequentialData. #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3249 tr_bound%g1!g.Index. #3199 #1621 #120 #203
[mk-app] #3250 proj%%g1!g.Index./Output #3199 #1621 #120 #203
[mk-app] #3251 = #44 #3250
[mk-app] #3252 proj%g1!g.Index./Output #3199 #1621 #120 #203
[mk-app] #3253 = #45 #3252
[mk-app] #3254 and #3251 #3253
[mk-app] #3255 and #3248 #3249 #3254 #3202 #3204 #2788
[mk-app] #3256 => #3247 #3255
[mk-app] #3257 pattern #3247
[mk-quant] #3258 internal_g1__matrix__traits__Matrix_trait_type_bounds_definition 8 #3257 #3256
[attach-var-names] #3258 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3259 and #3248 #3249 #3251 #3253 #3202 #3204 #2788
[mk-app] #3260 not #3247
[mk-app] #3261 or #3260 #3259
[mk-app] #3262 => #3247 #3259
[inst-discovered] theory-solving 0x0 basic# ; #3262
[mk-app] #3263 = #3262 #3261
[instance] 0x0 #3263
[attach-enode] #3263 0
[end-of-instance]
[mk-quant] #3262 internal_g1__matrix__traits__Matrix_trait_type_bounds_definition 8 #3257 #3261
[attach-var-names] #3262 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3263 tr_bound%g1!matrix.traits.MatrixOps0. #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3264 and #3247 #3202 #3204 #2788
[mk-app] #3265 => #3263 #3264
[mk-app] #3266 pattern #3263
[mk-quant] #3267 internal_g1__matrix__traits__MatrixOps0_trait_type_bounds_definition 8 #3266 #3265
[attach-var-names] #3267 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3268 not #3263
[mk-app] #3269 or #3268 #3264
[inst-discovered] theory-solving 0x0 basic# ; #3265
[mk-app] #3270 = #3265 #3269
[instance] 0x0 #3270
[attach-enode] #3270 0
[end-of-instance]
[mk-quant] #3270 internal_g1__matrix__traits__MatrixOps0_trait_type_bounds_definition 8 #3266 #3269
[attach-var-names] #3270 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3271 tr_bound%g1!matrix.traits.MatrixOps1. #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3272 => #3271 #3264
[mk-app] #3273 pattern #3271
[mk-quant] #3274 internal_g1__matrix__traits__MatrixOps1_trait_type_bounds_definition 8 #3273 #3272
[attach-var-names] #3274 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3275 not #3271
[mk-app] #3276 or #3275 #3264
[inst-discovered] theory-solving 0x0 basic# ; #3272
[mk-app] #3277 = #3272 #3276
[instance] 0x0 #3277
[attach-enode] #3277 0
[end-of-instance]
[mk-quant] #3277 internal_g1__matrix__traits__MatrixOps1_trait_type_bounds_definition 8 #3273 #3276
[attach-var-names] #3277 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3278 tr_bound%g1!matrix.traits.SquareMatrix. #1592 #1573 #1593 #263 #44 #45
[mk-app] #3279 tr_bound%g1!matrix.row_major.RowMajorSequentialData. #1592 #1573 #1593 #263 #1593 #263 #44 #45
[mk-app] #3280 and #3279 #3204 #2788
[mk-app] #3281 => #3278 #3280
[mk-app] #3282 pattern #3278
[mk-quant] #3283 internal_g1__matrix__traits__SquareMatrix_trait_type_bounds_definition 6 #3282 #3281
[attach-var-names] #3283 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3284 not #3278
[mk-app] #3285 or #3284 #3280
[inst-discovered] theory-solving 0x0 basic# ; #3281
[mk-app] #3286 = #3281 #3285
[instance] 0x0 #3286
[attach-enode] #3286 0
[end-of-instance]
[mk-quant] #3286 internal_g1__matrix__traits__SquareMatrix_trait_type_bounds_definition 6 #3282 #3285
[attach-var-names] #3286 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3287 tr_bound%g1!matrix.traits.SquareMatrixOps0. #1592 #1573 #1593 #263 #44 #45
[mk-app] #3288 and #3278 #3204 #2788
[mk-app] #3289 => #3287 #3288
[mk-app] #3290 pattern #3287
[mk-quant] #3291 internal_g1__matrix__traits__SquareMatrixOps0_trait_type_bounds_definition 6 #3290 #3289
[attach-var-names] #3291 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3292 not #3287
[mk-app] #3293 or #3292 #3288
[inst-discovered] theory-solving 0x0 basic# ; #3289
[mk-app] #3294 = #3289 #3293
[instance] 0x0 #3294
[attach-enode] #3294 0
[end-of-instance]
[mk-quant] #3294 internal_g1__matrix__traits__SquareMatrixOps0_trait_type_bounds_definition 6 #3290 #3293
[attach-var-names] #3294 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3295 tr_bound%g1!matrix.traits.SquareMatrixMut. #1592 #1573 #1593 #263 #44 #45
[mk-app] #3296 tr_bound%g1!matrix.row_major.RowMajorSequentialDataMut. #1592 #1573 #1593 #263 #1593 #263 #44 #45
[mk-app] #3297 and #3296 #3278 #3204 #2788
[mk-app] #3298 => #3295 #3297
[mk-app] #3299 pattern #3295
[mk-quant] #3300 internal_g1__matrix__traits__SquareMatrixMut_trait_type_bounds_definition 6 #3299 #3298
[attach-var-names] #3300 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3301 not #3295
[mk-app] #3302 or #3301 #3297
[inst-discovered] theory-solving 0x0 basic# ; #3298
[mk-app] #3303 = #3298 #3302
[instance] 0x0 #3303
[attach-enode] #3303 0
[end-of-instance]
[mk-quant] #3303 internal_g1__matrix__traits__SquareMatrixMut_trait_type_bounds_definition 6 #3299 #3302
[attach-var-names] #3303 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3304 tr_bound%g1!matrix.traits.Scalar. #1593 #263 #44 #45
[mk-app] #3305 CONST_INT #291
[mk-app] #3306 tr_bound%g1!matrix.traits.Matrix. #1593 #263 #120 #3305 #120 #3305 #44 #45
[mk-app] #3307 and #3306 #2788
[mk-app] #3308 => #3304 #3307
[mk-app] #3309 pattern #3304
[mk-quant] #3310 internal_g1__matrix__traits__Scalar_trait_type_bounds_definition 4 #3309 #3308
[attach-var-names] #3310 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3311 not #3304
[mk-app] #3312 or #3311 #3307
[inst-discovered] theory-solving 0x0 basic# ; #3308
[mk-app] #3313 = #3308 #3312
[instance] 0x0 #3313
[attach-enode] #3313 0
[end-of-instance]
[mk-quant] #3313 internal_g1__matrix__traits__Scalar_trait_type_bounds_definition 4 #3309 #3312
[attach-var-names] #3313 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3314 tr_bound%g1!matrix.traits.RowVector. #1592 #1573 #1593 #263 #44 #45
[mk-app] #3315 tr_bound%g1!matrix.traits.Matrix. #1592 #1573 #1593 #263 #120 #3305 #44 #45
[mk-app] #3316 and #3315 #3204 #2788
[mk-app] #3317 => #3314 #3316
[mk-app] #3318 pattern #3314
[mk-quant] #3319 internal_g1__matrix__traits__RowVector_trait_type_bounds_definition 6 #3318 #3317
[attach-var-names] #3319 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3320 not #3314
[mk-app] #3321 or #3320 #3316
[inst-discovered] theory-solving 0x0 basic# ; #3317
[mk-app] #3322 = #3317 #3321
[instance] 0x0 #3322
[attach-enode] #3322 0
[end-of-instance]
[mk-quant] #3322 internal_g1__matrix__traits__RowVector_trait_type_bounds_definition 6 #3318 #3321
[attach-var-names] #3322 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3323 tr_bound%g1!matrix.traits.ColumnVector. #1592 #1573 #1593 #263 #44 #45
[mk-app] #3324 tr_bound%g1!matrix.traits.Matrix. #1592 #1573 #120 #3305 #1593 #263 #44 #45
[mk-app] #3325 and #3324 #3204 #2788
[mk-app] #3326 => #3323 #3325
[mk-app] #3327 pattern #3323
[mk-quant] #3328 internal_g1__matrix__traits__ColumnVector_trait_type_bounds_definition 6 #3327 #3326
[attach-var-names] #3328 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3329 not #3323
[mk-app] #3330 or #3329 #3325
[inst-discovered] theory-solving 0x0 basic# ; #3326
[mk-app] #3331 = #3326 #3330
[instance] 0x0 #3331
[attach-enode] #3331 0
[end-of-instance]
[mk-quant] #3331 internal_g1__matrix__traits__ColumnVector_trait_type_bounds_definition 6 #3327 #3330
[attach-var-names] #3331 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3332 tr_bound%g1!matrix.traits.ScalarMut. #1593 #263 #44 #45
[mk-app] #3333 tr_bound%g1!matrix.traits.MatrixMut. #1593 #263 #120 #3305 #120 #3305 #44 #45
[mk-app] #3334 and #3333 #2788
[mk-app] #3335 => #3332 #3334
[mk-app] #3336 pattern #3332
[mk-quant] #3337 internal_g1__matrix__traits__ScalarMut_trait_type_bounds_definition 4 #3336 #3335
[attach-var-names] #3337 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3338 not #3332
[mk-app] #3339 or #3338 #3334
[inst-discovered] theory-solving 0x0 basic# ; #3335
[mk-app] #3340 = #3335 #3339
[instance] 0x0 #3340
[attach-enode] #3340 0
[end-of-instance]
[mk-quant] #3340 internal_g1__matrix__traits__ScalarMut_trait_type_bounds_definition 4 #3336 #3339
[attach-var-names] #3340 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3341 tr_bound%g1!matrix.traits.RowVectorMut. #1592 #1573 #1593 #263 #44 #45
[mk-app] #3342 tr_bound%g1!matrix.traits.MatrixMut. #1592 #1573 #1593 #263 #120 #3305 #44 #45
[mk-app] #3343 and #3342 #3314 #3204 #2788
[mk-app] #3344 => #3341 #3343
[mk-app] #3345 pattern #3341
[mk-quant] #3346 internal_g1__matrix__traits__RowVectorMut_trait_type_bounds_definition 6 #3345 #3344
[attach-var-names] #3346 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3347 not #3341
[mk-app] #3348 or #3347 #3343
[inst-discovered] theory-solving 0x0 basic# ; #3344
[mk-app] #3349 = #3344 #3348
[instance] 0x0 #3349
[attach-enode] #3349 0
[end-of-instance]
[mk-quant] #3349 internal_g1__matrix__traits__RowVectorMut_trait_type_bounds_definition 6 #3345 #3348
[attach-var-names] #3349 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3350 tr_bound%g1!matrix.traits.ColumnVectorMut. #1592 #1573 #1593 #263 #44 #45
[mk-app] #3351 tr_bound%g1!matrix.traits.MatrixMut. #1592 #1573 #120 #3305 #1593 #263 #44 #45
[mk-app] #3352 and #3351 #3323 #3204 #2788
[mk-app] #3353 => #3350 #3352
[mk-app] #3354 pattern #3350
[mk-quant] #3355 internal_g1__matrix__traits__ColumnVectorMut_trait_type_bounds_definition 6 #3354 #3353
[attach-var-names] #3355 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3356 not #3350
[mk-app] #3357 or #3356 #3352
[inst-discovered] theory-solving 0x0 basic# ; #3353
[mk-app] #3358 = #3353 #3357
[instance] 0x0 #3358
[attach-enode] #3358 0
[end-of-instance]
[mk-quant] #3358 internal_g1__matrix__traits__ColumnVectorMut_trait_type_bounds_definition 6 #3354 #3357
[attach-var-names] #3358 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3359 tr_bound%g1!matrix.traits.MatrixMut. #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3360 tr_bound%g1!matrix.row_major.RowMajorSequentialDataMut. #3199 #1621 #1592 #1573 #1593 #263 #44 #45
[mk-app] #3361 tr_bound%g1!g.IndexMut. #3199 #1621 #120 #203
[mk-app] #3362 and #3247 #3360 #3361 #3254 #3202 #3204 #2788
[mk-app] #3363 => #3359 #3362
[mk-app] #3364 pattern #3359
[mk-quant] #3365 internal_g1__matrix__traits__MatrixMut_trait_type_bounds_definition 8 #3364 #3363
[attach-var-names] #3365 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3366 and #3247 #3360 #3361 #3251 #3253 #3202 #3204 #2788
[inst-discovered] theory-solving 0x0 basic# ; #3362
[mk-app] #3367 = #3362 #3366
[instance] 0x0 #3367
[attach-enode] #3367 0
[end-of-instance]
[mk-app] #3367 not #3359
[mk-app] #3368 or #3367 #3366
[mk-app] #3369 => #3359 #3366
[inst-discovered] theory-solving 0x0 basic# ; #3369
[mk-app] #3370 = #3369 #3368
[instance] 0x0 #3370
[attach-enode] #3370 0
[end-of-instance]
[mk-quant] #3369 internal_g1__matrix__traits__MatrixMut_trait_type_bounds_definition 8 #3364 #3368
[attach-var-names] #3369 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3370 and #3202 #3204 #2788
[mk-app] #3371 => #3248 #3370
[mk-app] #3372 pattern #3248
[mk-quant] #3373 internal_g1__matrix__row_major__RowMajorSequentialData_trait_type_bounds_definition 8 #3372 #3371
[attach-var-names] #3373 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3374 not #3248
[mk-app] #3375 or #3374 #3370
[inst-discovered] theory-solving 0x0 basic# ; #3371
[mk-app] #3376 = #3371 #3375
[instance] 0x0 #3376
[attach-enode] #3376 0
[end-of-instance]
[mk-quant] #3376 internal_g1__matrix__row_major__RowMajorSequentialData_trait_type_bounds_definition 8 #3372 #3375
[attach-var-names] #3376 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3377 and #3248 #3202 #3204 #2788
[mk-app] #3378 => #3360 #3377
[mk-app] #3379 pattern #3360
[mk-quant] #3380 internal_g1__matrix__row_major__RowMajorSequentialDataMut_trait_type_bounds_definition 8 #3379 #3378
[attach-var-names] #3380 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3381 not #3360
[mk-app] #3382 or #3381 #3377
[inst-discovered] theory-solving 0x0 basic# ; #3378
[mk-app] #3383 = #3378 #3382
[instance] 0x0 #3383
[attach-enode] #3383 0
[end-of-instance]
[mk-quant] #3383 internal_g1__matrix__row_major__RowMajorSequentialDataMut_trait_type_bounds_definition 8 #3379 #3382
[attach-var-names] #3383 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3384 const_int #45
[mk-app] #3385 uInv #269 #3384
[mk-app] #3386 and #2799 #3385
[mk-app] #3387 ARRAY #1593 #263 #44 #45
[mk-app] #3388 proj%%vstd!view.View./V #120 #3387
[mk-app] #3389 = #3388 #120
[mk-app] #3390 => #3386 #3389
[mk-app] #3391 pattern #3388
[mk-quant] #3392 internal_proj____vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_true_definition 4 #3391 #3390
[attach-var-names] #3392 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3393 not #3386
[mk-app] #3394 or #3393 #3389
[inst-discovered] theory-solving 0x0 basic# ; #3390
[mk-app] #3395 = #3390 #3394
[instance] 0x0 #3395
[attach-enode] #3395 0
[end-of-instance]
[mk-quant] #3395 internal_proj____vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_true_definition 4 #3391 #3394
[attach-var-names] #3395 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3396 proj%vstd!view.View./V #120 #3387
[mk-app] #3397 TYPE%vstd!seq.Seq. #1593 #263
[mk-app] #3398 = #3396 #3397
[mk-app] #3399 => #3386 #3398
[mk-app] #3400 pattern #3396
[mk-quant] #3401 internal_proj__vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_false_definition 4 #3400 #3399
[attach-var-names] #3401 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3402 or #3393 #3398
[inst-discovered] theory-solving 0x0 basic# ; #3399
[mk-app] #3403 = #3399 #3402
[instance] 0x0 #3403
[attach-enode] #3403 0
[end-of-instance]
[mk-quant] #3403 internal_proj__vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_false_definition 4 #3400 #3402
[attach-var-names] #3403 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3404 PTR #44 #45
[mk-app] #3405 proj%%vstd!view.View./V #120 #3404
[mk-app] #3406 = #3405 #120
[mk-app] #3407 pattern #3405
[mk-quant] #3408 internal_proj____vstd!view.View./V_vstd__raw_ptr__impl&__2_assoc_type_impl_true_definition 2 #3407 #3406
[attach-var-names] #3408 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3409 proj%vstd!view.View./V #120 #3404
[mk-app] #3410 TYPE%vstd!raw_ptr.PtrData. #44 #45
[mk-app] #3411 = #3409 #3410
[mk-app] #3412 pattern #3409
[mk-quant] #3413 internal_proj__vstd!view.View./V_vstd__raw_ptr__impl&__2_assoc_type_impl_false_definition 2 #3412 #3411
[attach-var-names] #3413 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3414 CONST_PTR #120
[mk-app] #3415 proj%%vstd!view.View./V #3414 #3404
[mk-app] #3416 = #3415 #120
[mk-app] #3417 pattern #3415
[mk-quant] #3418 internal_proj____vstd!view.View./V_vstd__raw_ptr__impl&__3_assoc_type_impl_true_definition 2 #3417 #3416
[attach-var-names] #3418 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3419 proj%vstd!view.View./V #3414 #3404
[mk-app] #3420 = #3419 #3410
[mk-app] #3421 pattern #3419
[mk-quant] #3422 internal_proj__vstd!view.View./V_vstd__raw_ptr__impl&__3_assoc_type_impl_false_definition 2 #3421 #3420
[attach-var-names] #3422 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3423 SLICE #44 #45
[mk-app] #3424 proj%%vstd!view.View./V #1542 #3423
[mk-app] #3425 = #3424 #120
[mk-app] #3426 => #2788 #3425
[mk-app] #3427 pattern #3424
[mk-quant] #3428 internal_proj____vstd!view.View./V_vstd__slice__impl&__0_assoc_type_impl_true_definition 2 #3427 #3426
[attach-var-names] #3428 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3429 not #2788
[mk-app] #3430 or #3429 #3425
[inst-discovered] theory-solving 0x0 basic# ; #3426
[mk-app] #3431 = #3426 #3430
[instance] 0x0 #3431
[attach-enode] #3431 0
[end-of-instance]
[mk-quant] #3431 internal_proj____vstd!view.View./V_vstd__slice__impl&__0_assoc_type_impl_true_definition 2 #3427 #3430
[attach-var-names] #3431 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3432 proj%vstd!view.View./V #1542 #3423
[mk-app] #3433 = #3432 #2784
[mk-app] #3434 => #2788 #3433
[mk-app] #3435 pattern #3432
[mk-quant] #3436 internal_proj__vstd!view.View./V_vstd__slice__impl&__0_assoc_type_impl_false_definition 2 #3435 #3434
[attach-var-names] #3436 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3437 or #3429 #3433
[inst-discovered] theory-solving 0x0 basic# ; #3434
[mk-app] #3438 = #3434 #3437
[instance] 0x0 #3438
[attach-enode] #3438 0
[end-of-instance]
[mk-quant] #3438 internal_proj__vstd!view.View./V_vstd__slice__impl&__0_assoc_type_impl_false_definition 2 #3435 #3437
[attach-var-names] #3438 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3439 REF #44
[mk-app] #3440 proj%%vstd!view.View./V #3439 #45
[mk-app] #3441 = #3440 #2815
[mk-app] #3442 => #2814 #3441
[mk-app] #3443 pattern #3440
[mk-quant] #3444 internal_proj____vstd!view.View./V_vstd__view__impl&__0_assoc_type_impl_true_definition 2 #3443 #3442
[attach-var-names] #3444 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3445 or #2820 #3441
[inst-discovered] theory-solving 0x0 basic# ; #3442
[mk-app] #3446 = #3442 #3445
[instance] 0x0 #3446
[attach-enode] #3446 0
[end-of-instance]
[mk-quant] #3446 internal_proj____vstd!view.View./V_vstd__view__impl&__0_assoc_type_impl_true_definition 2 #3443 #3445
[attach-var-names] #3446 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3447 proj%vstd!view.View./V #3439 #45
[mk-app] #3448 proj%vstd!view.View./V #44 #45
[mk-app] #3449 = #3447 #3448
[mk-app] #3450 => #2814 #3449
[mk-app] #3451 pattern #3447
[mk-quant] #3452 internal_proj__vstd!view.View./V_vstd__view__impl&__0_assoc_type_impl_false_definition 2 #3451 #3450
[attach-var-names] #3452 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3453 or #2820 #3449
[inst-discovered] theory-solving 0x0 basic# ; #3450
[mk-app] #3454 = #3450 #3453
[instance] 0x0 #3454
[attach-enode] #3454 0
[end-of-instance]
[mk-quant] #3454 internal_proj__vstd!view.View./V_vstd__view__impl&__0_assoc_type_impl_false_definition 2 #3451 #3453
[attach-var-names] #3454 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3455 BOX #120 #1996 #44
[mk-app] #3456 proj%%vstd!view.View./V #3455 #45
[mk-app] #3457 = #3456 #2815
[mk-app] #3458 => #2814 #3457
[mk-app] #3459 pattern #3456
[mk-quant] #3460 internal_proj____vstd!view.View./V_vstd__view__impl&__2_assoc_type_impl_true_definition 2 #3459 #3458
[attach-var-names] #3460 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3461 or #2820 #3457
[inst-discovered] theory-solving 0x0 basic# ; #3458
[mk-app] #3462 = #3458 #3461
[instance] 0x0 #3462
[attach-enode] #3462 0
[end-of-instance]
[mk-quant] #3462 internal_proj____vstd!view.View./V_vstd__view__impl&__2_assoc_type_impl_true_definition 2 #3459 #3461
[attach-var-names] #3462 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3463 proj%vstd!view.View./V #3455 #45
[mk-app] #3464 = #3463 #3448
[mk-app] #3465 => #2814 #3464
[mk-app] #3466 pattern #3463
[mk-quant] #3467 internal_proj__vstd!view.View./V_vstd__view__impl&__2_assoc_type_impl_false_definition 2 #3466 #3465
[attach-var-names] #3467 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3468 or #2820 #3464
[inst-discovered] theory-solving 0x0 basic# ; #3465
[mk-app] #3469 = #3465 #3468
[instance] 0x0 #3469
[attach-enode] #3469 0
[end-of-instance]
[mk-quant] #3469 internal_proj__vstd!view.View./V_vstd__view__impl&__2_assoc_type_impl_false_definition 2 #3466 #3468
[attach-var-names] #3469 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3470 and #2788 #2814
[mk-app] #3471 RC #120 #1996 #44
[mk-app] #3472 proj%%vstd!view.View./V #3471 #45
[mk-app] #3473 = #3472 #2815
[mk-app] #3474 => #3470 #3473
[mk-app] #3475 pattern #3472
[mk-quant] #3476 internal_proj____vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_true_definition 2 #3475 #3474
[attach-var-names] #3476 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3477 not #3470
[mk-app] #3478 or #3477 #3473
[inst-discovered] theory-solving 0x0 basic# ; #3474
[mk-app] #3479 = #3474 #3478
[instance] 0x0 #3479
[attach-enode] #3479 0
[end-of-instance]
[mk-quant] #3479 internal_proj____vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_true_definition 2 #3475 #3478
[attach-var-names] #3479 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3480 proj%vstd!view.View./V #3471 #45
[mk-app] #3481 = #3480 #3448
[mk-app] #3482 => #3470 #3481
[mk-app] #3483 pattern #3480
[mk-quant] #3484 internal_proj__vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_false_definition 2 #3483 #3482
[attach-var-names] #3484 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3485 or #3477 #3481
[inst-discovered] theory-solving 0x0 basic# ; #3482
[mk-app] #3486 = #3482 #3485
[instance] 0x0 #3486
[attach-enode] #3486 0
[end-of-instance]
[mk-quant] #3486 internal_proj__vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_false_definition 2 #3483 #3485
[attach-var-names] #3486 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3487 ARC #120 #1996 #44
[mk-app] #3488 proj%%vstd!view.View./V #3487 #45
[mk-app] #3489 = #3488 #2815
[mk-app] #3490 => #3470 #3489
[mk-app] #3491 pattern #3488
[mk-quant] #3492 internal_proj____vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_true_definition 2 #3491 #3490
[attach-var-names] #3492 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3493 or #3477 #3489
[inst-discovered] theory-solving 0x0 basic# ; #3490
[mk-app] #3494 = #3490 #3493
[instance] 0x0 #3494
[attach-enode] #3494 0
[end-of-instance]
[mk-quant] #3494 internal_proj____vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_true_definition 2 #3491 #3493
[attach-var-names] #3494 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3495 proj%vstd!view.View./V #3487 #45
[mk-app] #3496 = #3495 #3448
[mk-app] #3497 => #3470 #3496
[mk-app] #3498 pattern #3495
[mk-quant] #3499 internal_proj__vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_false_definition 2 #3498 #3497
[attach-var-names] #3499 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3500 or #3477 #3496
[inst-discovered] theory-solving 0x0 basic# ; #3497
[mk-app] #3501 = #3497 #3500
[instance] 0x0 #3501
[attach-enode] #3501 0
[end-of-instance]
[mk-quant] #3501 internal_proj__vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_false_definition 2 #3498 #3500
[attach-var-names] #3501 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3502 and #2799 #2788 #2891
[mk-app] #3503 TYPE%alloc!vec.Vec. #1593 #263 #44 #45
[mk-app] #3504 proj%%vstd!view.View./V #120 #3503
[mk-app] #3505 = #3504 #120
[mk-app] #3506 => #3502 #3505
[mk-app] #3507 pattern #3504
[mk-quant] #3508 internal_proj____vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_true_definition 4 #3507 #3506
[attach-var-names] #3508 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3509 not #3502
[mk-app] #3510 or #3509 #3505
[inst-discovered] theory-solving 0x0 basic# ; #3506
[mk-app] #3511 = #3506 #3510
[instance] 0x0 #3511
[attach-enode] #3511 0
[end-of-instance]
[mk-quant] #3511 internal_proj____vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_true_definition 4 #3507 #3510
[attach-var-names] #3511 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3512 proj%vstd!view.View./V #120 #3503
[mk-app] #3513 = #3512 #3397
[mk-app] #3514 => #3502 #3513
[mk-app] #3515 pattern #3512
[mk-quant] #3516 internal_proj__vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_false_definition 4 #3515 #3514
[attach-var-names] #3516 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3517 or #3509 #3513
[inst-discovered] theory-solving 0x0 basic# ; #3514
[mk-app] #3518 = #3514 #3517
[instance] 0x0 #3518
[attach-enode] #3518 0
[end-of-instance]
[mk-quant] #3518 internal_proj__vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_false_definition 4 #3515 #3517
[attach-var-names] #3518 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3519 proj%%vstd!view.View./V #120 #2129
[mk-app] #3520 = #3519 #120
[mk-app] #3521 => #2788 #3520
[mk-app] #3522 pattern #3519
[mk-quant] #3523 internal_proj____vstd!view.View./V_vstd__view__impl&__14_assoc_type_impl_true_definition 2 #3522 #3521
[attach-var-names] #3523 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3524 or #3429 #3520
[inst-discovered] theory-solving 0x0 basic# ; #3521
[mk-app] #3525 = #3521 #3524
[instance] 0x0 #3525
[attach-enode] #3525 0
[end-of-instance]
[mk-quant] #3525 internal_proj____vstd!view.View./V_vstd__view__impl&__14_assoc_type_impl_true_definition 2 #3522 #3524
[attach-var-names] #3525 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3526 proj%vstd!view.View./V #120 #2129
[mk-app] #3527 = #3526 #2129
[mk-app] #3528 => #2788 #3527
[mk-app] #3529 pattern #3526
[mk-quant] #3530 internal_proj__vstd!view.View./V_vstd__view__impl&__14_assoc_type_impl_false_definition 2 #3529 #3528
[attach-var-names] #3530 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3531 or #3429 #3527
[inst-discovered] theory-solving 0x0 basic# ; #3528
[mk-app] #3532 = #3528 #3531
[instance] 0x0 #3532
[attach-enode] #3532 0
[end-of-instance]
[mk-quant] #3532 internal_proj__vstd!view.View./V_vstd__view__impl&__14_assoc_type_impl_false_definition 2 #3529 #3531
[attach-var-names] #3532 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3533 proj%%vstd!view.View./V #120 #1528
[mk-app] #3534 = #3533 #120
[mk-app] #3535 proj%vstd!view.View./V #120 #1528
[mk-app] #3536 = #3535 #1528
[mk-app] #3537 proj%%vstd!view.View./V #120 #135
[mk-app] #3538 = #3537 #120
[mk-app] #3539 proj%vstd!view.View./V #120 #135
[mk-app] #3540 = #3539 #135
[mk-app] #3541 proj%%vstd!view.View./V #120 #1707
[mk-app] #3542 = #3541 #120
[mk-app] #3543 proj%vstd!view.View./V #120 #1707
[mk-app] #3544 = #3543 #1707
[attach-meaning] #279 arith 16
[mk-app] #3545 proj%%vstd!view.View./V #120 #1728
[mk-app] #3546 = #3545 #120
[attach-meaning] #279 arith 16
[mk-app] #3547 proj%vstd!view.View./V #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #3548 = #3547 #1728
[attach-meaning] #270 arith 32
[mk-app] #3549 proj%%vstd!view.View./V #120 #1749
[mk-app] #3550 = #3549 #120
[attach-meaning] #270 arith 32
[mk-app] #3551 proj%vstd!view.View./V #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #3552 = #3551 #1749
[attach-meaning] #272 arith 64
[mk-app] #3553 proj%%vstd!view.View./V #120 #1770
[mk-app] #3554 = #3553 #120
[attach-meaning] #272 arith 64
[mk-app] #3555 proj%vstd!view.View./V #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #3556 = #3555 #1770
[attach-meaning] #289 arith 128
[mk-app] #3557 proj%%vstd!view.View./V #120 #1791
[mk-app] #3558 = #3557 #120
[attach-meaning] #289 arith 128
[mk-app] #3559 proj%vstd!view.View./V #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #3560 = #3559 #1791
[mk-app] #3561 proj%%vstd!view.View./V #120 #203
[mk-app] #3562 = #3561 #120
[mk-app] #3563 proj%vstd!view.View./V #120 #203
[mk-app] #3564 = #3563 #203
[mk-app] #3565 proj%%vstd!view.View./V #120 #1812
[mk-app] #3566 = #3565 #120
[mk-app] #3567 proj%vstd!view.View./V #120 #1812
[mk-app] #3568 = #3567 #1812
[attach-meaning] #279 arith 16
[mk-app] #3569 proj%%vstd!view.View./V #120 #1833
[mk-app] #3570 = #3569 #120
[attach-meaning] #279 arith 16
[mk-app] #3571 proj%vstd!view.View./V #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #3572 = #3571 #1833
[attach-meaning] #270 arith 32
[mk-app] #3573 proj%%vstd!view.View./V #120 #1854
[mk-app] #3574 = #3573 #120
[attach-meaning] #270 arith 32
[mk-app] #3575 proj%vstd!view.View./V #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #3576 = #3575 #1854
[attach-meaning] #272 arith 64
[mk-app] #3577 proj%%vstd!view.View./V #120 #1875
[mk-app] #3578 = #3577 #120
[attach-meaning] #272 arith 64
[mk-app] #3579 proj%vstd!view.View./V #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #3580 = #3579 #1875
[attach-meaning] #289 arith 128
[mk-app] #3581 proj%%vstd!view.View./V #120 #1896
[mk-app] #3582 = #3581 #120
[attach-meaning] #289 arith 128
[mk-app] #3583 proj%vstd!view.View./V #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #3584 = #3583 #1896
[mk-app] #3585 proj%%vstd!view.View./V #120 #211
[mk-app] #3586 = #3585 #120
[mk-app] #3587 proj%vstd!view.View./V #120 #211
[mk-app] #3588 = #3587 #211
[mk-app] #3589 DST #44
[mk-app] #3590 TYPE%tuple%1. #44 #45
[mk-app] #3591 proj%%vstd!view.View./V #3589 #3590
[mk-app] #3592 DST #2815
[mk-app] #3593 = #3591 #3592
[mk-app] #3594 => #3470 #3593
[mk-app] #3595 pattern #3591
[mk-quant] #3596 internal_proj____vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_true_definition 2 #3595 #3594
[attach-var-names] #3596 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3597 or #3477 #3593
[inst-discovered] theory-solving 0x0 basic# ; #3594
[mk-app] #3598 = #3594 #3597
[instance] 0x0 #3598
[attach-enode] #3598 0
[end-of-instance]
[mk-quant] #3598 internal_proj____vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_true_definition 2 #3595 #3597
[attach-var-names] #3598 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3599 proj%vstd!view.View./V #3589 #3590
[mk-app] #3600 TYPE%tuple%1. #2815 #3448
[mk-app] #3601 = #3599 #3600
[mk-app] #3602 => #3470 #3601
[mk-app] #3603 pattern #3599
[mk-quant] #3604 internal_proj__vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_false_definition 2 #3603 #3602
[attach-var-names] #3604 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3605 or #3477 #3601
[inst-discovered] theory-solving 0x0 basic# ; #3602
[mk-app] #3606 = #3602 #3605
[instance] 0x0 #3606
[attach-enode] #3606 0
[end-of-instance]
[mk-quant] #3606 internal_proj__vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_false_definition 2 #3603 #3605
[attach-var-names] #3606 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3607 and #2799 #2788 #2781 #2814
[mk-app] #3608 TYPE%tuple%2. #1593 #263 #44 #45
[mk-app] #3609 proj%%vstd!view.View./V #3589 #3608
[mk-app] #3610 = #3609 #3592
[mk-app] #3611 => #3607 #3610
[mk-app] #3612 pattern #3609
[mk-quant] #3613 internal_proj____vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_true_definition 4 #3612 #3611
[attach-var-names] #3613 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3614 not #3607
[mk-app] #3615 or #3614 #3610
[inst-discovered] theory-solving 0x0 basic# ; #3611
[mk-app] #3616 = #3611 #3615
[instance] 0x0 #3616
[attach-enode] #3616 0
[end-of-instance]
[mk-quant] #3616 internal_proj____vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_true_definition 4 #3612 #3615
[attach-var-names] #3616 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3617 proj%vstd!view.View./V #3589 #3608
[mk-app] #3618 TYPE%tuple%2. #2782 #2785 #2815 #3448
[mk-app] #3619 = #3617 #3618
[mk-app] #3620 => #3607 #3619
[mk-app] #3621 pattern #3617
[mk-quant] #3622 internal_proj__vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_false_definition 4 #3621 #3620
[attach-var-names] #3622 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3623 or #3614 #3619
[inst-discovered] theory-solving 0x0 basic# ; #3620
[mk-app] #3624 = #3620 #3623
[instance] 0x0 #3624
[attach-enode] #3624 0
[end-of-instance]
[mk-quant] #3624 internal_proj__vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_false_definition 4 #3621 #3623
[attach-var-names] #3624 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3625 TYPE%core!ops.range.RangeInclusive. #44 #45
[mk-app] #3626 proj%%vstd!view.View./V #120 #3625
[mk-app] #3627 = #3626 #120
[mk-app] #3628 => #2788 #3627
[mk-app] #3629 pattern #3626
[mk-quant] #3630 internal_proj____vstd!view.View./V_vstd__std_specs__range__impl&__2_assoc_type_impl_true_definition 2 #3629 #3628
[attach-var-names] #3630 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #3631 or #3429 #3627
[inst-discovered] theory-solving 0x0 basic# ; #3628
[mk-app] #3632 = #3628 #3631
[instance] 0x0 #3632
[attach-enode] #3632 0
[end-of-instance]
[mk-quant] #3632 internal_proj____vstd!view.View./V_vstd__std_specs__range__impl&__2_assoc_type_impl_true_definition 2 #3629 #3631
[attach-var-names] #3632 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #3633 proj%vstd!view.View./V #120 #3625
[mk-app] #3634 TYPE%vstd!std_specs.range.RangeInclusiveView. #44 #45
[mk-app] #3635 = #3633 #3634
[mk-app] #3636 => #2788 #3635
[mk-app] #3637 pattern #3633
[mk-quant] #3638 internal_proj__vstd!view.View./V_vstd__std_specs__range__impl&__2_assoc_type_impl_false_definition 2 #3637 #3636
[attach-var-names] #3638 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #3639 or #3429 #3635
[inst-discovered] theory-solving 0x0 basic# ; #3636
[mk-app] #3640 = #3636 #3639
[instance] 0x0 #3640
[attach-enode] #3640 0
[end-of-instance]
[mk-quant] #3640 internal_proj__vstd!view.View./V_vstd__std_specs__range__impl&__2_assoc_type_impl_false_definition 2 #3637 #3639
[attach-var-names] #3640 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #3641 and #2788 #3096
[mk-app] #3642 TYPE%core!num.nonzero.NonZero. #44 #45
[mk-app] #3643 proj%%vstd!view.View./V #120 #3642
[mk-app] #3644 = #3643 #44
[mk-app] #3645 => #3641 #3644
[mk-app] #3646 pattern #3643
[mk-quant] #3647 internal_proj____vstd!view.View./V_vstd__std_specs__nonzero__impl&__11_assoc_type_impl_true_definition 2 #3646 #3645
[attach-var-names] #3647 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3648 not #3641
[mk-app] #3649 or #3648 #3644
[inst-discovered] theory-solving 0x0 basic# ; #3645
[mk-app] #3650 = #3645 #3649
[instance] 0x0 #3650
[attach-enode] #3650 0
[end-of-instance]
[mk-quant] #3650 internal_proj____vstd!view.View./V_vstd__std_specs__nonzero__impl&__11_assoc_type_impl_true_definition 2 #3646 #3649
[attach-var-names] #3650 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3651 proj%vstd!view.View./V #120 #3642
[mk-app] #3652 = #3651 #45
[mk-app] #3653 => #3641 #3652
[mk-app] #3654 pattern #3651
[mk-quant] #3655 internal_proj__vstd!view.View./V_vstd__std_specs__nonzero__impl&__11_assoc_type_impl_false_definition 2 #3654 #3653
[attach-var-names] #3655 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3656 or #3648 #3652
[inst-discovered] theory-solving 0x0 basic# ; #3653
[mk-app] #3657 = #3653 #3656
[instance] 0x0 #3657
[attach-enode] #3657 0
[end-of-instance]
[mk-quant] #3657 internal_proj__vstd!view.View./V_vstd__std_specs__nonzero__impl&__11_assoc_type_impl_false_definition 2 #3654 #3656
[attach-var-names] #3657 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3658 REF #120
[mk-app] #3659 proj%%core!ops.arith.Add./Output #3658 #203 #120 #203
[mk-app] #3660 = #3659 #120
[mk-app] #3661 proj%core!ops.arith.Add./Output #3658 #203 #120 #203
[mk-app] #3662 = #3661 #203
[mk-app] #3663 proj%%core!ops.arith.Add./Output #3658 #203 #3658 #203
[mk-app] #3664 = #3663 #120
[mk-app] #3665 proj%core!ops.arith.Add./Output #3658 #203 #3658 #203
[mk-app] #3666 = #3665 #203
[mk-app] #3667 proj%%core!ops.arith.Add./Output #3658 #1707 #120 #1707
[mk-app] #3668 = #3667 #120
[mk-app] #3669 proj%core!ops.arith.Add./Output #3658 #1707 #120 #1707
[mk-app] #3670 = #3669 #1707
[mk-app] #3671 proj%%core!ops.arith.Add./Output #3658 #1707 #3658 #1707
[mk-app] #3672 = #3671 #120
[mk-app] #3673 proj%core!ops.arith.Add./Output #3658 #1707 #3658 #1707
[mk-app] #3674 = #3673 #1707
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3675 proj%%core!ops.arith.Add./Output #3658 #1728 #120 #1728
[mk-app] #3676 = #3675 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3677 proj%core!ops.arith.Add./Output #3658 #1728 #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #3678 = #3677 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3679 proj%%core!ops.arith.Add./Output #3658 #1728 #3658 #1728
[mk-app] #3680 = #3679 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3681 proj%core!ops.arith.Add./Output #3658 #1728 #3658 #1728
[attach-meaning] #279 arith 16
[mk-app] #3682 = #3681 #1728
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3683 proj%%core!ops.arith.Add./Output #3658 #1749 #120 #1749
[mk-app] #3684 = #3683 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3685 proj%core!ops.arith.Add./Output #3658 #1749 #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #3686 = #3685 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3687 proj%%core!ops.arith.Add./Output #3658 #1749 #3658 #1749
[mk-app] #3688 = #3687 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3689 proj%core!ops.arith.Add./Output #3658 #1749 #3658 #1749
[attach-meaning] #270 arith 32
[mk-app] #3690 = #3689 #1749
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3691 proj%%core!ops.arith.Add./Output #3658 #1770 #120 #1770
[mk-app] #3692 = #3691 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3693 proj%core!ops.arith.Add./Output #3658 #1770 #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #3694 = #3693 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3695 proj%%core!ops.arith.Add./Output #3658 #1770 #3658 #1770
[mk-app] #3696 = #3695 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3697 proj%core!ops.arith.Add./Output #3658 #1770 #3658 #1770
[attach-meaning] #272 arith 64
[mk-app] #3698 = #3697 #1770
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3699 proj%%core!ops.arith.Add./Output #3658 #1791 #120 #1791
[mk-app] #3700 = #3699 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3701 proj%core!ops.arith.Add./Output #3658 #1791 #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #3702 = #3701 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3703 proj%%core!ops.arith.Add./Output #3658 #1791 #3658 #1791
[mk-app] #3704 = #3703 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3705 proj%core!ops.arith.Add./Output #3658 #1791 #3658 #1791
[attach-meaning] #289 arith 128
[mk-app] #3706 = #3705 #1791
[mk-app] #3707 proj%%core!ops.arith.Add./Output #3658 #211 #120 #211
[mk-app] #3708 = #3707 #120
[mk-app] #3709 proj%core!ops.arith.Add./Output #3658 #211 #120 #211
[mk-app] #3710 = #3709 #211
[mk-app] #3711 proj%%core!ops.arith.Add./Output #3658 #211 #3658 #211
[mk-app] #3712 = #3711 #120
[mk-app] #3713 proj%core!ops.arith.Add./Output #3658 #211 #3658 #211
[mk-app] #3714 = #3713 #211
[mk-app] #3715 proj%%core!ops.arith.Add./Output #3658 #1812 #120 #1812
[mk-app] #3716 = #3715 #120
[mk-app] #3717 proj%core!ops.arith.Add./Output #3658 #1812 #120 #1812
[mk-app] #3718 = #3717 #1812
[mk-app] #3719 proj%%core!ops.arith.Add./Output #3658 #1812 #3658 #1812
[mk-app] #3720 = #3719 #120
[mk-app] #3721 proj%core!ops.arith.Add./Output #3658 #1812 #3658 #1812
[mk-app] #3722 = #3721 #1812
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3723 proj%%core!ops.arith.Add./Output #3658 #1833 #120 #1833
[mk-app] #3724 = #3723 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3725 proj%core!ops.arith.Add./Output #3658 #1833 #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #3726 = #3725 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3727 proj%%core!ops.arith.Add./Output #3658 #1833 #3658 #1833
[mk-app] #3728 = #3727 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3729 proj%core!ops.arith.Add./Output #3658 #1833 #3658 #1833
[attach-meaning] #279 arith 16
[mk-app] #3730 = #3729 #1833
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3731 proj%%core!ops.arith.Add./Output #3658 #1854 #120 #1854
[mk-app] #3732 = #3731 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3733 proj%core!ops.arith.Add./Output #3658 #1854 #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #3734 = #3733 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3735 proj%%core!ops.arith.Add./Output #3658 #1854 #3658 #1854
[mk-app] #3736 = #3735 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3737 proj%core!ops.arith.Add./Output #3658 #1854 #3658 #1854
[attach-meaning] #270 arith 32
[mk-app] #3738 = #3737 #1854
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3739 proj%%core!ops.arith.Add./Output #3658 #1875 #120 #1875
[mk-app] #3740 = #3739 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3741 proj%core!ops.arith.Add./Output #3658 #1875 #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #3742 = #3741 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3743 proj%%core!ops.arith.Add./Output #3658 #1875 #3658 #1875
[mk-app] #3744 = #3743 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3745 proj%core!ops.arith.Add./Output #3658 #1875 #3658 #1875
[attach-meaning] #272 arith 64
[mk-app] #3746 = #3745 #1875
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3747 proj%%core!ops.arith.Add./Output #3658 #1896 #120 #1896
[mk-app] #3748 = #3747 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3749 proj%core!ops.arith.Add./Output #3658 #1896 #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #3750 = #3749 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3751 proj%%core!ops.arith.Add./Output #3658 #1896 #3658 #1896
[mk-app] #3752 = #3751 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3753 proj%core!ops.arith.Add./Output #3658 #1896 #3658 #1896
[attach-meaning] #289 arith 128
[mk-app] #3754 = #3753 #1896
[mk-app] #3755 proj%%core!ops.arith.Add./Output #120 #203 #120 #203
[mk-app] #3756 = #3755 #120
[mk-app] #3757 proj%core!ops.arith.Add./Output #120 #203 #120 #203
[mk-app] #3758 = #3757 #203
[mk-app] #3759 proj%%core!ops.arith.Add./Output #120 #203 #3658 #203
[mk-app] #3760 = #3759 #120
[mk-app] #3761 proj%core!ops.arith.Add./Output #120 #203 #3658 #203
[mk-app] #3762 = #3761 #203
[mk-app] #3763 proj%%core!ops.arith.Add./Output #120 #1707 #120 #1707
[mk-app] #3764 = #3763 #120
[mk-app] #3765 proj%core!ops.arith.Add./Output #120 #1707 #120 #1707
[mk-app] #3766 = #3765 #1707
[mk-app] #3767 proj%%core!ops.arith.Add./Output #120 #1707 #3658 #1707
[mk-app] #3768 = #3767 #120
[mk-app] #3769 proj%core!ops.arith.Add./Output #120 #1707 #3658 #1707
[mk-app] #3770 = #3769 #1707
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3771 proj%%core!ops.arith.Add./Output #120 #1728 #120 #1728
[mk-app] #3772 = #3771 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3773 proj%core!ops.arith.Add./Output #120 #1728 #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #3774 = #3773 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3775 proj%%core!ops.arith.Add./Output #120 #1728 #3658 #1728
[mk-app] #3776 = #3775 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3777 proj%core!ops.arith.Add./Output #120 #1728 #3658 #1728
[attach-meaning] #279 arith 16
[mk-app] #3778 = #3777 #1728
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3779 proj%%core!ops.arith.Add./Output #120 #1749 #120 #1749
[mk-app] #3780 = #3779 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3781 proj%core!ops.arith.Add./Output #120 #1749 #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #3782 = #3781 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3783 proj%%core!ops.arith.Add./Output #120 #1749 #3658 #1749
[mk-app] #3784 = #3783 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3785 proj%core!ops.arith.Add./Output #120 #1749 #3658 #1749
[attach-meaning] #270 arith 32
[mk-app] #3786 = #3785 #1749
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3787 proj%%core!ops.arith.Add./Output #120 #1770 #120 #1770
[mk-app] #3788 = #3787 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3789 proj%core!ops.arith.Add./Output #120 #1770 #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #3790 = #3789 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3791 proj%%core!ops.arith.Add./Output #120 #1770 #3658 #1770
[mk-app] #3792 = #3791 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3793 proj%core!ops.arith.Add./Output #120 #1770 #3658 #1770
[attach-meaning] #272 arith 64
[mk-app] #3794 = #3793 #1770
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3795 proj%%core!ops.arith.Add./Output #120 #1791 #120 #1791
[mk-app] #3796 = #3795 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3797 proj%core!ops.arith.Add./Output #120 #1791 #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #3798 = #3797 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3799 proj%%core!ops.arith.Add./Output #120 #1791 #3658 #1791
[mk-app] #3800 = #3799 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3801 proj%core!ops.arith.Add./Output #120 #1791 #3658 #1791
[attach-meaning] #289 arith 128
[mk-app] #3802 = #3801 #1791
[mk-app] #3803 proj%%core!ops.arith.Add./Output #120 #211 #120 #211
[mk-app] #3804 = #3803 #120
[mk-app] #3805 proj%core!ops.arith.Add./Output #120 #211 #120 #211
[mk-app] #3806 = #3805 #211
[mk-app] #3807 proj%%core!ops.arith.Add./Output #120 #211 #3658 #211
[mk-app] #3808 = #3807 #120
[mk-app] #3809 proj%core!ops.arith.Add./Output #120 #211 #3658 #211
[mk-app] #3810 = #3809 #211
[mk-app] #3811 proj%%core!ops.arith.Add./Output #120 #1812 #120 #1812
[mk-app] #3812 = #3811 #120
[mk-app] #3813 proj%core!ops.arith.Add./Output #120 #1812 #120 #1812
[mk-app] #3814 = #3813 #1812
[mk-app] #3815 proj%%core!ops.arith.Add./Output #120 #1812 #3658 #1812
[mk-app] #3816 = #3815 #120
[mk-app] #3817 proj%core!ops.arith.Add./Output #120 #1812 #3658 #1812
[mk-app] #3818 = #3817 #1812
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3819 proj%%core!ops.arith.Add./Output #120 #1833 #120 #1833
[mk-app] #3820 = #3819 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3821 proj%core!ops.arith.Add./Output #120 #1833 #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #3822 = #3821 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3823 proj%%core!ops.arith.Add./Output #120 #1833 #3658 #1833
[mk-app] #3824 = #3823 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3825 proj%core!ops.arith.Add./Output #120 #1833 #3658 #1833
[attach-meaning] #279 arith 16
[mk-app] #3826 = #3825 #1833
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3827 proj%%core!ops.arith.Add./Output #120 #1854 #120 #1854
[mk-app] #3828 = #3827 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3829 proj%core!ops.arith.Add./Output #120 #1854 #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #3830 = #3829 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3831 proj%%core!ops.arith.Add./Output #120 #1854 #3658 #1854
[mk-app] #3832 = #3831 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3833 proj%core!ops.arith.Add./Output #120 #1854 #3658 #1854
[attach-meaning] #270 arith 32
[mk-app] #3834 = #3833 #1854
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3835 proj%%core!ops.arith.Add./Output #120 #1875 #120 #1875
[mk-app] #3836 = #3835 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3837 proj%core!ops.arith.Add./Output #120 #1875 #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #3838 = #3837 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3839 proj%%core!ops.arith.Add./Output #120 #1875 #3658 #1875
[mk-app] #3840 = #3839 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3841 proj%core!ops.arith.Add./Output #120 #1875 #3658 #1875
[attach-meaning] #272 arith 64
[mk-app] #3842 = #3841 #1875
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3843 proj%%core!ops.arith.Add./Output #120 #1896 #120 #1896
[mk-app] #3844 = #3843 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3845 proj%core!ops.arith.Add./Output #120 #1896 #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #3846 = #3845 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3847 proj%%core!ops.arith.Add./Output #120 #1896 #3658 #1896
[mk-app] #3848 = #3847 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3849 proj%core!ops.arith.Add./Output #120 #1896 #3658 #1896
[attach-meaning] #289 arith 128
[mk-app] #3850 = #3849 #1896
[mk-app] #3851 proj%%core!ops.arith.Add./Output #120 #1976 #120 #1976
[mk-app] #3852 = #3851 #120
[mk-app] #3853 proj%core!ops.arith.Add./Output #120 #1976 #120 #1976
[mk-app] #3854 = #3853 #1976
[mk-app] #3855 proj%%core!ops.arith.Add./Output #120 #184 #120 #184
[mk-app] #3856 = #3855 #120
[mk-app] #3857 proj%core!ops.arith.Add./Output #120 #184 #120 #184
[mk-app] #3858 = #3857 #184
[mk-app] #3859 proj%%core!ops.arith.Add./Output #120 #195 #120 #195
[mk-app] #3860 = #3859 #120
[mk-app] #3861 proj%core!ops.arith.Add./Output #120 #195 #120 #195
[mk-app] #3862 = #3861 #195
[mk-app] #3863 proj%%core!ops.arith.Sub./Output #3658 #203 #120 #203
[mk-app] #3864 = #3863 #120
[mk-app] #3865 proj%core!ops.arith.Sub./Output #3658 #203 #120 #203
[mk-app] #3866 = #3865 #203
[mk-app] #3867 proj%%core!ops.arith.Sub./Output #3658 #203 #3658 #203
[mk-app] #3868 = #3867 #120
[mk-app] #3869 proj%core!ops.arith.Sub./Output #3658 #203 #3658 #203
[mk-app] #3870 = #3869 #203
[mk-app] #3871 proj%%core!ops.arith.Sub./Output #3658 #1707 #120 #1707
[mk-app] #3872 = #3871 #120
[mk-app] #3873 proj%core!ops.arith.Sub./Output #3658 #1707 #120 #1707
[mk-app] #3874 = #3873 #1707
[mk-app] #3875 proj%%core!ops.arith.Sub./Output #3658 #1707 #3658 #1707
[mk-app] #3876 = #3875 #120
[mk-app] #3877 proj%core!ops.arith.Sub./Output #3658 #1707 #3658 #1707
[mk-app] #3878 = #3877 #1707
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3879 proj%%core!ops.arith.Sub./Output #3658 #1728 #120 #1728
[mk-app] #3880 = #3879 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3881 proj%core!ops.arith.Sub./Output #3658 #1728 #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #3882 = #3881 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3883 proj%%core!ops.arith.Sub./Output #3658 #1728 #3658 #1728
[mk-app] #3884 = #3883 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3885 proj%core!ops.arith.Sub./Output #3658 #1728 #3658 #1728
[attach-meaning] #279 arith 16
[mk-app] #3886 = #3885 #1728
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3887 proj%%core!ops.arith.Sub./Output #3658 #1749 #120 #1749
[mk-app] #3888 = #3887 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3889 proj%core!ops.arith.Sub./Output #3658 #1749 #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #3890 = #3889 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3891 proj%%core!ops.arith.Sub./Output #3658 #1749 #3658 #1749
[mk-app] #3892 = #3891 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3893 proj%core!ops.arith.Sub./Output #3658 #1749 #3658 #1749
[attach-meaning] #270 arith 32
[mk-app] #3894 = #3893 #1749
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3895 proj%%core!ops.arith.Sub./Output #3658 #1770 #120 #1770
[mk-app] #3896 = #3895 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3897 proj%core!ops.arith.Sub./Output #3658 #1770 #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #3898 = #3897 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3899 proj%%core!ops.arith.Sub./Output #3658 #1770 #3658 #1770
[mk-app] #3900 = #3899 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3901 proj%core!ops.arith.Sub./Output #3658 #1770 #3658 #1770
[attach-meaning] #272 arith 64
[mk-app] #3902 = #3901 #1770
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3903 proj%%core!ops.arith.Sub./Output #3658 #1791 #120 #1791
[mk-app] #3904 = #3903 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3905 proj%core!ops.arith.Sub./Output #3658 #1791 #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #3906 = #3905 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3907 proj%%core!ops.arith.Sub./Output #3658 #1791 #3658 #1791
[mk-app] #3908 = #3907 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3909 proj%core!ops.arith.Sub./Output #3658 #1791 #3658 #1791
[attach-meaning] #289 arith 128
[mk-app] #3910 = #3909 #1791
[mk-app] #3911 proj%%core!ops.arith.Sub./Output #3658 #211 #120 #211
[mk-app] #3912 = #3911 #120
[mk-app] #3913 proj%core!ops.arith.Sub./Output #3658 #211 #120 #211
[mk-app] #3914 = #3913 #211
[mk-app] #3915 proj%%core!ops.arith.Sub./Output #3658 #211 #3658 #211
[mk-app] #3916 = #3915 #120
[mk-app] #3917 proj%core!ops.arith.Sub./Output #3658 #211 #3658 #211
[mk-app] #3918 = #3917 #211
[mk-app] #3919 proj%%core!ops.arith.Sub./Output #3658 #1812 #120 #1812
[mk-app] #3920 = #3919 #120
[mk-app] #3921 proj%core!ops.arith.Sub./Output #3658 #1812 #120 #1812
[mk-app] #3922 = #3921 #1812
[mk-app] #3923 proj%%core!ops.arith.Sub./Output #3658 #1812 #3658 #1812
[mk-app] #3924 = #3923 #120
[mk-app] #3925 proj%core!ops.arith.Sub./Output #3658 #1812 #3658 #1812
[mk-app] #3926 = #3925 #1812
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3927 proj%%core!ops.arith.Sub./Output #3658 #1833 #120 #1833
[mk-app] #3928 = #3927 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3929 proj%core!ops.arith.Sub./Output #3658 #1833 #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #3930 = #3929 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3931 proj%%core!ops.arith.Sub./Output #3658 #1833 #3658 #1833
[mk-app] #3932 = #3931 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3933 proj%core!ops.arith.Sub./Output #3658 #1833 #3658 #1833
[attach-meaning] #279 arith 16
[mk-app] #3934 = #3933 #1833
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3935 proj%%core!ops.arith.Sub./Output #3658 #1854 #120 #1854
[mk-app] #3936 = #3935 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3937 proj%core!ops.arith.Sub./Output #3658 #1854 #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #3938 = #3937 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3939 proj%%core!ops.arith.Sub./Output #3658 #1854 #3658 #1854
[mk-app] #3940 = #3939 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3941 proj%core!ops.arith.Sub./Output #3658 #1854 #3658 #1854
[attach-meaning] #270 arith 32
[mk-app] #3942 = #3941 #1854
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3943 proj%%core!ops.arith.Sub./Output #3658 #1875 #120 #1875
[mk-app] #3944 = #3943 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3945 proj%core!ops.arith.Sub./Output #3658 #1875 #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #3946 = #3945 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3947 proj%%core!ops.arith.Sub./Output #3658 #1875 #3658 #1875
[mk-app] #3948 = #3947 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3949 proj%core!ops.arith.Sub./Output #3658 #1875 #3658 #1875
[attach-meaning] #272 arith 64
[mk-app] #3950 = #3949 #1875
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3951 proj%%core!ops.arith.Sub./Output #3658 #1896 #120 #1896
[mk-app] #3952 = #3951 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3953 proj%core!ops.arith.Sub./Output #3658 #1896 #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #3954 = #3953 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3955 proj%%core!ops.arith.Sub./Output #3658 #1896 #3658 #1896
[mk-app] #3956 = #3955 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3957 proj%core!ops.arith.Sub./Output #3658 #1896 #3658 #1896
[attach-meaning] #289 arith 128
[mk-app] #3958 = #3957 #1896
[mk-app] #3959 proj%%core!ops.arith.Sub./Output #120 #203 #120 #203
[mk-app] #3960 = #3959 #120
[mk-app] #3961 proj%core!ops.arith.Sub./Output #120 #203 #120 #203
[mk-app] #3962 = #3961 #203
[mk-app] #3963 proj%%core!ops.arith.Sub./Output #120 #203 #3658 #203
[mk-app] #3964 = #3963 #120
[mk-app] #3965 proj%core!ops.arith.Sub./Output #120 #203 #3658 #203
[mk-app] #3966 = #3965 #203
[mk-app] #3967 proj%%core!ops.arith.Sub./Output #120 #1707 #120 #1707
[mk-app] #3968 = #3967 #120
[mk-app] #3969 proj%core!ops.arith.Sub./Output #120 #1707 #120 #1707
[mk-app] #3970 = #3969 #1707
[mk-app] #3971 proj%%core!ops.arith.Sub./Output #120 #1707 #3658 #1707
[mk-app] #3972 = #3971 #120
[mk-app] #3973 proj%core!ops.arith.Sub./Output #120 #1707 #3658 #1707
[mk-app] #3974 = #3973 #1707
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3975 proj%%core!ops.arith.Sub./Output #120 #1728 #120 #1728
[mk-app] #3976 = #3975 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3977 proj%core!ops.arith.Sub./Output #120 #1728 #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #3978 = #3977 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3979 proj%%core!ops.arith.Sub./Output #120 #1728 #3658 #1728
[mk-app] #3980 = #3979 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #3981 proj%core!ops.arith.Sub./Output #120 #1728 #3658 #1728
[attach-meaning] #279 arith 16
[mk-app] #3982 = #3981 #1728
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3983 proj%%core!ops.arith.Sub./Output #120 #1749 #120 #1749
[mk-app] #3984 = #3983 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3985 proj%core!ops.arith.Sub./Output #120 #1749 #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #3986 = #3985 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3987 proj%%core!ops.arith.Sub./Output #120 #1749 #3658 #1749
[mk-app] #3988 = #3987 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #3989 proj%core!ops.arith.Sub./Output #120 #1749 #3658 #1749
[attach-meaning] #270 arith 32
[mk-app] #3990 = #3989 #1749
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3991 proj%%core!ops.arith.Sub./Output #120 #1770 #120 #1770
[mk-app] #3992 = #3991 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3993 proj%core!ops.arith.Sub./Output #120 #1770 #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #3994 = #3993 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3995 proj%%core!ops.arith.Sub./Output #120 #1770 #3658 #1770
[mk-app] #3996 = #3995 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #3997 proj%core!ops.arith.Sub./Output #120 #1770 #3658 #1770
[attach-meaning] #272 arith 64
[mk-app] #3998 = #3997 #1770
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #3999 proj%%core!ops.arith.Sub./Output #120 #1791 #120 #1791
[mk-app] #4000 = #3999 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4001 proj%core!ops.arith.Sub./Output #120 #1791 #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #4002 = #4001 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4003 proj%%core!ops.arith.Sub./Output #120 #1791 #3658 #1791
[mk-app] #4004 = #4003 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4005 proj%core!ops.arith.Sub./Output #120 #1791 #3658 #1791
[attach-meaning] #289 arith 128
[mk-app] #4006 = #4005 #1791
[mk-app] #4007 proj%%core!ops.arith.Sub./Output #120 #211 #120 #211
[mk-app] #4008 = #4007 #120
[mk-app] #4009 proj%core!ops.arith.Sub./Output #120 #211 #120 #211
[mk-app] #4010 = #4009 #211
[mk-app] #4011 proj%%core!ops.arith.Sub./Output #120 #211 #3658 #211
[mk-app] #4012 = #4011 #120
[mk-app] #4013 proj%core!ops.arith.Sub./Output #120 #211 #3658 #211
[mk-app] #4014 = #4013 #211
[mk-app] #4015 proj%%core!ops.arith.Sub./Output #120 #1812 #120 #1812
[mk-app] #4016 = #4015 #120
[mk-app] #4017 proj%core!ops.arith.Sub./Output #120 #1812 #120 #1812
[mk-app] #4018 = #4017 #1812
[mk-app] #4019 proj%%core!ops.arith.Sub./Output #120 #1812 #3658 #1812
[mk-app] #4020 = #4019 #120
[mk-app] #4021 proj%core!ops.arith.Sub./Output #120 #1812 #3658 #1812
[mk-app] #4022 = #4021 #1812
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4023 proj%%core!ops.arith.Sub./Output #120 #1833 #120 #1833
[mk-app] #4024 = #4023 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4025 proj%core!ops.arith.Sub./Output #120 #1833 #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #4026 = #4025 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4027 proj%%core!ops.arith.Sub./Output #120 #1833 #3658 #1833
[mk-app] #4028 = #4027 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4029 proj%core!ops.arith.Sub./Output #120 #1833 #3658 #1833
[attach-meaning] #279 arith 16
[mk-app] #4030 = #4029 #1833
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4031 proj%%core!ops.arith.Sub./Output #120 #1854 #120 #1854
[mk-app] #4032 = #4031 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4033 proj%core!ops.arith.Sub./Output #120 #1854 #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #4034 = #4033 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4035 proj%%core!ops.arith.Sub./Output #120 #1854 #3658 #1854
[mk-app] #4036 = #4035 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4037 proj%core!ops.arith.Sub./Output #120 #1854 #3658 #1854
[attach-meaning] #270 arith 32
[mk-app] #4038 = #4037 #1854
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4039 proj%%core!ops.arith.Sub./Output #120 #1875 #120 #1875
[mk-app] #4040 = #4039 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4041 proj%core!ops.arith.Sub./Output #120 #1875 #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #4042 = #4041 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4043 proj%%core!ops.arith.Sub./Output #120 #1875 #3658 #1875
[mk-app] #4044 = #4043 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4045 proj%core!ops.arith.Sub./Output #120 #1875 #3658 #1875
[attach-meaning] #272 arith 64
[mk-app] #4046 = #4045 #1875
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4047 proj%%core!ops.arith.Sub./Output #120 #1896 #120 #1896
[mk-app] #4048 = #4047 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4049 proj%core!ops.arith.Sub./Output #120 #1896 #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #4050 = #4049 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4051 proj%%core!ops.arith.Sub./Output #120 #1896 #3658 #1896
[mk-app] #4052 = #4051 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4053 proj%core!ops.arith.Sub./Output #120 #1896 #3658 #1896
[attach-meaning] #289 arith 128
[mk-app] #4054 = #4053 #1896
[mk-app] #4055 proj%%core!ops.arith.Sub./Output #120 #1976 #120 #1976
[mk-app] #4056 = #4055 #120
[mk-app] #4057 proj%core!ops.arith.Sub./Output #120 #1976 #120 #1976
[mk-app] #4058 = #4057 #1976
[mk-app] #4059 proj%%core!ops.arith.Sub./Output #120 #184 #120 #184
[mk-app] #4060 = #4059 #120
[mk-app] #4061 proj%core!ops.arith.Sub./Output #120 #184 #120 #184
[mk-app] #4062 = #4061 #184
[mk-app] #4063 proj%%core!ops.arith.Sub./Output #120 #195 #120 #195
[mk-app] #4064 = #4063 #120
[mk-app] #4065 proj%core!ops.arith.Sub./Output #120 #195 #120 #195
[mk-app] #4066 = #4065 #195
[mk-app] #4067 proj%%core!ops.arith.Mul./Output #3658 #203 #120 #203
[mk-app] #4068 = #4067 #120
[mk-app] #4069 proj%core!ops.arith.Mul./Output #3658 #203 #120 #203
[mk-app] #4070 = #4069 #203
[mk-app] #4071 proj%%core!ops.arith.Mul./Output #3658 #203 #3658 #203
[mk-app] #4072 = #4071 #120
[mk-app] #4073 proj%core!ops.arith.Mul./Output #3658 #203 #3658 #203
[mk-app] #4074 = #4073 #203
[mk-app] #4075 proj%%core!ops.arith.Mul./Output #3658 #1707 #120 #1707
[mk-app] #4076 = #4075 #120
[mk-app] #4077 proj%core!ops.arith.Mul./Output #3658 #1707 #120 #1707
[mk-app] #4078 = #4077 #1707
[mk-app] #4079 proj%%core!ops.arith.Mul./Output #3658 #1707 #3658 #1707
[mk-app] #4080 = #4079 #120
[mk-app] #4081 proj%core!ops.arith.Mul./Output #3658 #1707 #3658 #1707
[mk-app] #4082 = #4081 #1707
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4083 proj%%core!ops.arith.Mul./Output #3658 #1728 #120 #1728
[mk-app] #4084 = #4083 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4085 proj%core!ops.arith.Mul./Output #3658 #1728 #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #4086 = #4085 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4087 proj%%core!ops.arith.Mul./Output #3658 #1728 #3658 #1728
[mk-app] #4088 = #4087 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4089 proj%core!ops.arith.Mul./Output #3658 #1728 #3658 #1728
[attach-meaning] #279 arith 16
[mk-app] #4090 = #4089 #1728
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4091 proj%%core!ops.arith.Mul./Output #3658 #1749 #120 #1749
[mk-app] #4092 = #4091 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4093 proj%core!ops.arith.Mul./Output #3658 #1749 #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #4094 = #4093 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4095 proj%%core!ops.arith.Mul./Output #3658 #1749 #3658 #1749
[mk-app] #4096 = #4095 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4097 proj%core!ops.arith.Mul./Output #3658 #1749 #3658 #1749
[attach-meaning] #270 arith 32
[mk-app] #4098 = #4097 #1749
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4099 proj%%core!ops.arith.Mul./Output #3658 #1770 #120 #1770
[mk-app] #4100 = #4099 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4101 proj%core!ops.arith.Mul./Output #3658 #1770 #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #4102 = #4101 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4103 proj%%core!ops.arith.Mul./Output #3658 #1770 #3658 #1770
[mk-app] #4104 = #4103 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4105 proj%core!ops.arith.Mul./Output #3658 #1770 #3658 #1770
[attach-meaning] #272 arith 64
[mk-app] #4106 = #4105 #1770
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4107 proj%%core!ops.arith.Mul./Output #3658 #1791 #120 #1791
[mk-app] #4108 = #4107 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4109 proj%core!ops.arith.Mul./Output #3658 #1791 #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #4110 = #4109 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4111 proj%%core!ops.arith.Mul./Output #3658 #1791 #3658 #1791
[mk-app] #4112 = #4111 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4113 proj%core!ops.arith.Mul./Output #3658 #1791 #3658 #1791
[attach-meaning] #289 arith 128
[mk-app] #4114 = #4113 #1791
[mk-app] #4115 proj%%core!ops.arith.Mul./Output #3658 #211 #120 #211
[mk-app] #4116 = #4115 #120
[mk-app] #4117 proj%core!ops.arith.Mul./Output #3658 #211 #120 #211
[mk-app] #4118 = #4117 #211
[mk-app] #4119 proj%%core!ops.arith.Mul./Output #3658 #211 #3658 #211
[mk-app] #4120 = #4119 #120
[mk-app] #4121 proj%core!ops.arith.Mul./Output #3658 #211 #3658 #211
[mk-app] #4122 = #4121 #211
[mk-app] #4123 proj%%core!ops.arith.Mul./Output #3658 #1812 #120 #1812
[mk-app] #4124 = #4123 #120
[mk-app] #4125 proj%core!ops.arith.Mul./Output #3658 #1812 #120 #1812
[mk-app] #4126 = #4125 #1812
[mk-app] #4127 proj%%core!ops.arith.Mul./Output #3658 #1812 #3658 #1812
[mk-app] #4128 = #4127 #120
[mk-app] #4129 proj%core!ops.arith.Mul./Output #3658 #1812 #3658 #1812
[mk-app] #4130 = #4129 #1812
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4131 proj%%core!ops.arith.Mul./Output #3658 #1833 #120 #1833
[mk-app] #4132 = #4131 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4133 proj%core!ops.arith.Mul./Output #3658 #1833 #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #4134 = #4133 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4135 proj%%core!ops.arith.Mul./Output #3658 #1833 #3658 #1833
[mk-app] #4136 = #4135 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4137 proj%core!ops.arith.Mul./Output #3658 #1833 #3658 #1833
[attach-meaning] #279 arith 16
[mk-app] #4138 = #4137 #1833
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4139 proj%%core!ops.arith.Mul./Output #3658 #1854 #120 #1854
[mk-app] #4140 = #4139 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4141 proj%core!ops.arith.Mul./Output #3658 #1854 #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #4142 = #4141 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4143 proj%%core!ops.arith.Mul./Output #3658 #1854 #3658 #1854
[mk-app] #4144 = #4143 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4145 proj%core!ops.arith.Mul./Output #3658 #1854 #3658 #1854
[attach-meaning] #270 arith 32
[mk-app] #4146 = #4145 #1854
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4147 proj%%core!ops.arith.Mul./Output #3658 #1875 #120 #1875
[mk-app] #4148 = #4147 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4149 proj%core!ops.arith.Mul./Output #3658 #1875 #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #4150 = #4149 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4151 proj%%core!ops.arith.Mul./Output #3658 #1875 #3658 #1875
[mk-app] #4152 = #4151 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4153 proj%core!ops.arith.Mul./Output #3658 #1875 #3658 #1875
[attach-meaning] #272 arith 64
[mk-app] #4154 = #4153 #1875
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4155 proj%%core!ops.arith.Mul./Output #3658 #1896 #120 #1896
[mk-app] #4156 = #4155 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4157 proj%core!ops.arith.Mul./Output #3658 #1896 #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #4158 = #4157 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4159 proj%%core!ops.arith.Mul./Output #3658 #1896 #3658 #1896
[mk-app] #4160 = #4159 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4161 proj%core!ops.arith.Mul./Output #3658 #1896 #3658 #1896
[attach-meaning] #289 arith 128
[mk-app] #4162 = #4161 #1896
[mk-app] #4163 proj%%core!ops.arith.Mul./Output #120 #203 #120 #203
[mk-app] #4164 = #4163 #120
[mk-app] #4165 proj%core!ops.arith.Mul./Output #120 #203 #120 #203
[mk-app] #4166 = #4165 #203
[mk-app] #4167 proj%%core!ops.arith.Mul./Output #120 #203 #3658 #203
[mk-app] #4168 = #4167 #120
[mk-app] #4169 proj%core!ops.arith.Mul./Output #120 #203 #3658 #203
[mk-app] #4170 = #4169 #203
[mk-app] #4171 proj%%core!ops.arith.Mul./Output #120 #1707 #120 #1707
[mk-app] #4172 = #4171 #120
[mk-app] #4173 proj%core!ops.arith.Mul./Output #120 #1707 #120 #1707
[mk-app] #4174 = #4173 #1707
[mk-app] #4175 proj%%core!ops.arith.Mul./Output #120 #1707 #3658 #1707
[mk-app] #4176 = #4175 #120
[mk-app] #4177 proj%core!ops.arith.Mul./Output #120 #1707 #3658 #1707
[mk-app] #4178 = #4177 #1707
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4179 proj%%core!ops.arith.Mul./Output #120 #1728 #120 #1728
[mk-app] #4180 = #4179 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4181 proj%core!ops.arith.Mul./Output #120 #1728 #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #4182 = #4181 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4183 proj%%core!ops.arith.Mul./Output #120 #1728 #3658 #1728
[mk-app] #4184 = #4183 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4185 proj%core!ops.arith.Mul./Output #120 #1728 #3658 #1728
[attach-meaning] #279 arith 16
[mk-app] #4186 = #4185 #1728
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4187 proj%%core!ops.arith.Mul./Output #120 #1749 #120 #1749
[mk-app] #4188 = #4187 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4189 proj%core!ops.arith.Mul./Output #120 #1749 #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #4190 = #4189 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4191 proj%%core!ops.arith.Mul./Output #120 #1749 #3658 #1749
[mk-app] #4192 = #4191 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4193 proj%core!ops.arith.Mul./Output #120 #1749 #3658 #1749
[attach-meaning] #270 arith 32
[mk-app] #4194 = #4193 #1749
[attach-meaning] #270 arith 32
[mk-app] #4195 proj%%core!ops.arith.Mul./Output #120 #1749 #120 #1976
[mk-app] #4196 = #4195 #120
[attach-meaning] #270 arith 32
[mk-app] #4197 proj%core!ops.arith.Mul./Output #120 #1749 #120 #1976
[mk-app] #4198 = #4197 #1976
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4199 proj%%core!ops.arith.Mul./Output #120 #1770 #120 #1770
[mk-app] #4200 = #4199 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4201 proj%core!ops.arith.Mul./Output #120 #1770 #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #4202 = #4201 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4203 proj%%core!ops.arith.Mul./Output #120 #1770 #3658 #1770
[mk-app] #4204 = #4203 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4205 proj%core!ops.arith.Mul./Output #120 #1770 #3658 #1770
[attach-meaning] #272 arith 64
[mk-app] #4206 = #4205 #1770
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4207 proj%%core!ops.arith.Mul./Output #120 #1791 #120 #1791
[mk-app] #4208 = #4207 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4209 proj%core!ops.arith.Mul./Output #120 #1791 #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #4210 = #4209 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4211 proj%%core!ops.arith.Mul./Output #120 #1791 #3658 #1791
[mk-app] #4212 = #4211 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4213 proj%core!ops.arith.Mul./Output #120 #1791 #3658 #1791
[attach-meaning] #289 arith 128
[mk-app] #4214 = #4213 #1791
[mk-app] #4215 proj%%core!ops.arith.Mul./Output #120 #211 #120 #211
[mk-app] #4216 = #4215 #120
[mk-app] #4217 proj%core!ops.arith.Mul./Output #120 #211 #120 #211
[mk-app] #4218 = #4217 #211
[mk-app] #4219 proj%%core!ops.arith.Mul./Output #120 #211 #3658 #211
[mk-app] #4220 = #4219 #120
[mk-app] #4221 proj%core!ops.arith.Mul./Output #120 #211 #3658 #211
[mk-app] #4222 = #4221 #211
[mk-app] #4223 proj%%core!ops.arith.Mul./Output #120 #1812 #120 #1812
[mk-app] #4224 = #4223 #120
[mk-app] #4225 proj%core!ops.arith.Mul./Output #120 #1812 #120 #1812
[mk-app] #4226 = #4225 #1812
[mk-app] #4227 proj%%core!ops.arith.Mul./Output #120 #1812 #3658 #1812
[mk-app] #4228 = #4227 #120
[mk-app] #4229 proj%core!ops.arith.Mul./Output #120 #1812 #3658 #1812
[mk-app] #4230 = #4229 #1812
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4231 proj%%core!ops.arith.Mul./Output #120 #1833 #120 #1833
[mk-app] #4232 = #4231 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4233 proj%core!ops.arith.Mul./Output #120 #1833 #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #4234 = #4233 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4235 proj%%core!ops.arith.Mul./Output #120 #1833 #3658 #1833
[mk-app] #4236 = #4235 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4237 proj%core!ops.arith.Mul./Output #120 #1833 #3658 #1833
[attach-meaning] #279 arith 16
[mk-app] #4238 = #4237 #1833
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4239 proj%%core!ops.arith.Mul./Output #120 #1854 #120 #1854
[mk-app] #4240 = #4239 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4241 proj%core!ops.arith.Mul./Output #120 #1854 #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #4242 = #4241 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4243 proj%%core!ops.arith.Mul./Output #120 #1854 #3658 #1854
[mk-app] #4244 = #4243 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4245 proj%core!ops.arith.Mul./Output #120 #1854 #3658 #1854
[attach-meaning] #270 arith 32
[mk-app] #4246 = #4245 #1854
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4247 proj%%core!ops.arith.Mul./Output #120 #1875 #120 #1875
[mk-app] #4248 = #4247 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4249 proj%core!ops.arith.Mul./Output #120 #1875 #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #4250 = #4249 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4251 proj%%core!ops.arith.Mul./Output #120 #1875 #3658 #1875
[mk-app] #4252 = #4251 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4253 proj%core!ops.arith.Mul./Output #120 #1875 #3658 #1875
[attach-meaning] #272 arith 64
[mk-app] #4254 = #4253 #1875
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4255 proj%%core!ops.arith.Mul./Output #120 #1896 #120 #1896
[mk-app] #4256 = #4255 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4257 proj%core!ops.arith.Mul./Output #120 #1896 #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #4258 = #4257 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4259 proj%%core!ops.arith.Mul./Output #120 #1896 #3658 #1896
[mk-app] #4260 = #4259 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4261 proj%core!ops.arith.Mul./Output #120 #1896 #3658 #1896
[attach-meaning] #289 arith 128
[mk-app] #4262 = #4261 #1896
[attach-meaning] #270 arith 32
[mk-app] #4263 proj%%core!ops.arith.Mul./Output #120 #1976 #120 #1749
[mk-app] #4264 = #4263 #120
[attach-meaning] #270 arith 32
[mk-app] #4265 proj%core!ops.arith.Mul./Output #120 #1976 #120 #1749
[mk-app] #4266 = #4265 #1976
[mk-app] #4267 proj%%core!ops.arith.Mul./Output #120 #184 #120 #184
[mk-app] #4268 = #4267 #120
[mk-app] #4269 proj%core!ops.arith.Mul./Output #120 #184 #120 #184
[mk-app] #4270 = #4269 #184
[mk-app] #4271 proj%%core!ops.arith.Mul./Output #120 #195 #120 #195
[mk-app] #4272 = #4271 #120
[mk-app] #4273 proj%core!ops.arith.Mul./Output #120 #195 #120 #195
[mk-app] #4274 = #4273 #195
[mk-app] #4275 proj%%core!ops.arith.Div./Output #120 #1707 #120 #1708
[mk-app] #4276 = #4275 #120
[mk-app] #4277 proj%core!ops.arith.Div./Output #120 #1707 #120 #1708
[mk-app] #4278 = #4277 #1707
[mk-app] #4279 proj%%core!ops.arith.Div./Output #120 #1707 #120 #1707
[mk-app] #4280 = #4279 #120
[mk-app] #4281 proj%core!ops.arith.Div./Output #120 #1707 #120 #1707
[mk-app] #4282 = #4281 #1707
[mk-app] #4283 proj%%core!ops.arith.Div./Output #120 #1707 #3658 #1707
[mk-app] #4284 = #4283 #120
[mk-app] #4285 proj%core!ops.arith.Div./Output #120 #1707 #3658 #1707
[mk-app] #4286 = #4285 #1707
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4287 proj%%core!ops.arith.Div./Output #120 #1728 #120 #1729
[mk-app] #4288 = #4287 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4289 proj%core!ops.arith.Div./Output #120 #1728 #120 #1729
[attach-meaning] #279 arith 16
[mk-app] #4290 = #4289 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4291 proj%%core!ops.arith.Div./Output #120 #1728 #120 #1728
[mk-app] #4292 = #4291 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4293 proj%core!ops.arith.Div./Output #120 #1728 #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #4294 = #4293 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4295 proj%%core!ops.arith.Div./Output #120 #1728 #3658 #1728
[mk-app] #4296 = #4295 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4297 proj%core!ops.arith.Div./Output #120 #1728 #3658 #1728
[attach-meaning] #279 arith 16
[mk-app] #4298 = #4297 #1728
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4299 proj%%core!ops.arith.Div./Output #120 #1749 #120 #1750
[mk-app] #4300 = #4299 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4301 proj%core!ops.arith.Div./Output #120 #1749 #120 #1750
[attach-meaning] #270 arith 32
[mk-app] #4302 = #4301 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4303 proj%%core!ops.arith.Div./Output #120 #1749 #120 #1749
[mk-app] #4304 = #4303 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4305 proj%core!ops.arith.Div./Output #120 #1749 #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #4306 = #4305 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4307 proj%%core!ops.arith.Div./Output #120 #1749 #3658 #1749
[mk-app] #4308 = #4307 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4309 proj%core!ops.arith.Div./Output #120 #1749 #3658 #1749
[attach-meaning] #270 arith 32
[mk-app] #4310 = #4309 #1749
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4311 proj%%core!ops.arith.Div./Output #120 #1770 #120 #1771
[mk-app] #4312 = #4311 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4313 proj%core!ops.arith.Div./Output #120 #1770 #120 #1771
[attach-meaning] #272 arith 64
[mk-app] #4314 = #4313 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4315 proj%%core!ops.arith.Div./Output #120 #1770 #120 #1770
[mk-app] #4316 = #4315 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4317 proj%core!ops.arith.Div./Output #120 #1770 #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #4318 = #4317 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4319 proj%%core!ops.arith.Div./Output #120 #1770 #3658 #1770
[mk-app] #4320 = #4319 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4321 proj%core!ops.arith.Div./Output #120 #1770 #3658 #1770
[attach-meaning] #272 arith 64
[mk-app] #4322 = #4321 #1770
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4323 proj%%core!ops.arith.Div./Output #120 #1791 #120 #1792
[mk-app] #4324 = #4323 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4325 proj%core!ops.arith.Div./Output #120 #1791 #120 #1792
[attach-meaning] #289 arith 128
[mk-app] #4326 = #4325 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4327 proj%%core!ops.arith.Div./Output #120 #1791 #120 #1791
[mk-app] #4328 = #4327 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4329 proj%core!ops.arith.Div./Output #120 #1791 #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #4330 = #4329 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4331 proj%%core!ops.arith.Div./Output #120 #1791 #3658 #1791
[mk-app] #4332 = #4331 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4333 proj%core!ops.arith.Div./Output #120 #1791 #3658 #1791
[attach-meaning] #289 arith 128
[mk-app] #4334 = #4333 #1791
[mk-app] #4335 proj%%core!ops.arith.Div./Output #120 #203 #120 #1917
[mk-app] #4336 = #4335 #120
[mk-app] #4337 proj%core!ops.arith.Div./Output #120 #203 #120 #1917
[mk-app] #4338 = #4337 #203
[mk-app] #4339 proj%%core!ops.arith.Div./Output #120 #203 #120 #203
[mk-app] #4340 = #4339 #120
[mk-app] #4341 proj%core!ops.arith.Div./Output #120 #203 #120 #203
[mk-app] #4342 = #4341 #203
[mk-app] #4343 proj%%core!ops.arith.Div./Output #120 #203 #3658 #203
[mk-app] #4344 = #4343 #120
[mk-app] #4345 proj%core!ops.arith.Div./Output #120 #203 #3658 #203
[mk-app] #4346 = #4345 #203
[mk-app] #4347 proj%%core!ops.arith.Div./Output #3658 #203 #120 #203
[mk-app] #4348 = #4347 #120
[mk-app] #4349 proj%core!ops.arith.Div./Output #3658 #203 #120 #203
[mk-app] #4350 = #4349 #203
[mk-app] #4351 proj%%core!ops.arith.Div./Output #3658 #203 #3658 #203
[mk-app] #4352 = #4351 #120
[mk-app] #4353 proj%core!ops.arith.Div./Output #3658 #203 #3658 #203
[mk-app] #4354 = #4353 #203
[mk-app] #4355 proj%%core!ops.arith.Div./Output #3658 #1707 #120 #1707
[mk-app] #4356 = #4355 #120
[mk-app] #4357 proj%core!ops.arith.Div./Output #3658 #1707 #120 #1707
[mk-app] #4358 = #4357 #1707
[mk-app] #4359 proj%%core!ops.arith.Div./Output #3658 #1707 #3658 #1707
[mk-app] #4360 = #4359 #120
[mk-app] #4361 proj%core!ops.arith.Div./Output #3658 #1707 #3658 #1707
[mk-app] #4362 = #4361 #1707
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4363 proj%%core!ops.arith.Div./Output #3658 #1728 #120 #1728
[mk-app] #4364 = #4363 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4365 proj%core!ops.arith.Div./Output #3658 #1728 #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #4366 = #4365 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4367 proj%%core!ops.arith.Div./Output #3658 #1728 #3658 #1728
[mk-app] #4368 = #4367 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4369 proj%core!ops.arith.Div./Output #3658 #1728 #3658 #1728
[attach-meaning] #279 arith 16
[mk-app] #4370 = #4369 #1728
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4371 proj%%core!ops.arith.Div./Output #3658 #1749 #120 #1749
[mk-app] #4372 = #4371 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4373 proj%core!ops.arith.Div./Output #3658 #1749 #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #4374 = #4373 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4375 proj%%core!ops.arith.Div./Output #3658 #1749 #3658 #1749
[mk-app] #4376 = #4375 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4377 proj%core!ops.arith.Div./Output #3658 #1749 #3658 #1749
[attach-meaning] #270 arith 32
[mk-app] #4378 = #4377 #1749
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4379 proj%%core!ops.arith.Div./Output #3658 #1770 #120 #1770
[mk-app] #4380 = #4379 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4381 proj%core!ops.arith.Div./Output #3658 #1770 #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #4382 = #4381 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4383 proj%%core!ops.arith.Div./Output #3658 #1770 #3658 #1770
[mk-app] #4384 = #4383 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4385 proj%core!ops.arith.Div./Output #3658 #1770 #3658 #1770
[attach-meaning] #272 arith 64
[mk-app] #4386 = #4385 #1770
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4387 proj%%core!ops.arith.Div./Output #3658 #1791 #120 #1791
[mk-app] #4388 = #4387 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4389 proj%core!ops.arith.Div./Output #3658 #1791 #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #4390 = #4389 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4391 proj%%core!ops.arith.Div./Output #3658 #1791 #3658 #1791
[mk-app] #4392 = #4391 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4393 proj%core!ops.arith.Div./Output #3658 #1791 #3658 #1791
[attach-meaning] #289 arith 128
[mk-app] #4394 = #4393 #1791
[mk-app] #4395 proj%%core!ops.arith.Div./Output #3658 #211 #120 #211
[mk-app] #4396 = #4395 #120
[mk-app] #4397 proj%core!ops.arith.Div./Output #3658 #211 #120 #211
[mk-app] #4398 = #4397 #211
[mk-app] #4399 proj%%core!ops.arith.Div./Output #3658 #211 #3658 #211
[mk-app] #4400 = #4399 #120
[mk-app] #4401 proj%core!ops.arith.Div./Output #3658 #211 #3658 #211
[mk-app] #4402 = #4401 #211
[mk-app] #4403 proj%%core!ops.arith.Div./Output #3658 #1812 #120 #1812
[mk-app] #4404 = #4403 #120
[mk-app] #4405 proj%core!ops.arith.Div./Output #3658 #1812 #120 #1812
[mk-app] #4406 = #4405 #1812
[mk-app] #4407 proj%%core!ops.arith.Div./Output #3658 #1812 #3658 #1812
[mk-app] #4408 = #4407 #120
[mk-app] #4409 proj%core!ops.arith.Div./Output #3658 #1812 #3658 #1812
[mk-app] #4410 = #4409 #1812
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4411 proj%%core!ops.arith.Div./Output #3658 #1833 #120 #1833
[mk-app] #4412 = #4411 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4413 proj%core!ops.arith.Div./Output #3658 #1833 #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #4414 = #4413 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4415 proj%%core!ops.arith.Div./Output #3658 #1833 #3658 #1833
[mk-app] #4416 = #4415 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4417 proj%core!ops.arith.Div./Output #3658 #1833 #3658 #1833
[attach-meaning] #279 arith 16
[mk-app] #4418 = #4417 #1833
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4419 proj%%core!ops.arith.Div./Output #3658 #1854 #120 #1854
[mk-app] #4420 = #4419 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4421 proj%core!ops.arith.Div./Output #3658 #1854 #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #4422 = #4421 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4423 proj%%core!ops.arith.Div./Output #3658 #1854 #3658 #1854
[mk-app] #4424 = #4423 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4425 proj%core!ops.arith.Div./Output #3658 #1854 #3658 #1854
[attach-meaning] #270 arith 32
[mk-app] #4426 = #4425 #1854
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4427 proj%%core!ops.arith.Div./Output #3658 #1875 #120 #1875
[mk-app] #4428 = #4427 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4429 proj%core!ops.arith.Div./Output #3658 #1875 #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #4430 = #4429 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4431 proj%%core!ops.arith.Div./Output #3658 #1875 #3658 #1875
[mk-app] #4432 = #4431 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4433 proj%core!ops.arith.Div./Output #3658 #1875 #3658 #1875
[attach-meaning] #272 arith 64
[mk-app] #4434 = #4433 #1875
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4435 proj%%core!ops.arith.Div./Output #3658 #1896 #120 #1896
[mk-app] #4436 = #4435 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4437 proj%core!ops.arith.Div./Output #3658 #1896 #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #4438 = #4437 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4439 proj%%core!ops.arith.Div./Output #3658 #1896 #3658 #1896
[mk-app] #4440 = #4439 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4441 proj%core!ops.arith.Div./Output #3658 #1896 #3658 #1896
[attach-meaning] #289 arith 128
[mk-app] #4442 = #4441 #1896
[mk-app] #4443 proj%%core!ops.arith.Div./Output #120 #211 #120 #211
[mk-app] #4444 = #4443 #120
[mk-app] #4445 proj%core!ops.arith.Div./Output #120 #211 #120 #211
[mk-app] #4446 = #4445 #211
[mk-app] #4447 proj%%core!ops.arith.Div./Output #120 #211 #3658 #211
[mk-app] #4448 = #4447 #120
[mk-app] #4449 proj%core!ops.arith.Div./Output #120 #211 #3658 #211
[mk-app] #4450 = #4449 #211
[mk-app] #4451 proj%%core!ops.arith.Div./Output #120 #1812 #120 #1812
[mk-app] #4452 = #4451 #120
[mk-app] #4453 proj%core!ops.arith.Div./Output #120 #1812 #120 #1812
[mk-app] #4454 = #4453 #1812
[mk-app] #4455 proj%%core!ops.arith.Div./Output #120 #1812 #3658 #1812
[mk-app] #4456 = #4455 #120
[mk-app] #4457 proj%core!ops.arith.Div./Output #120 #1812 #3658 #1812
[mk-app] #4458 = #4457 #1812
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4459 proj%%core!ops.arith.Div./Output #120 #1833 #120 #1833
[mk-app] #4460 = #4459 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4461 proj%core!ops.arith.Div./Output #120 #1833 #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #4462 = #4461 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4463 proj%%core!ops.arith.Div./Output #120 #1833 #3658 #1833
[mk-app] #4464 = #4463 #120
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #4465 proj%core!ops.arith.Div./Output #120 #1833 #3658 #1833
[attach-meaning] #279 arith 16
[mk-app] #4466 = #4465 #1833
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4467 proj%%core!ops.arith.Div./Output #120 #1854 #120 #1854
[mk-app] #4468 = #4467 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4469 proj%core!ops.arith.Div./Output #120 #1854 #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #4470 = #4469 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4471 proj%%core!ops.arith.Div./Output #120 #1854 #3658 #1854
[mk-app] #4472 = #4471 #120
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #4473 proj%core!ops.arith.Div./Output #120 #1854 #3658 #1854
[attach-meaning] #270 arith 32
[mk-app] #4474 = #4473 #1854
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4475 proj%%core!ops.arith.Div./Output #120 #1875 #120 #1875
[mk-app] #4476 = #4475 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4477 proj%core!ops.arith.Div./Output #120 #1875 #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #4478 = #4477 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4479 proj%%core!ops.arith.Div./Output #120 #1875 #3658 #1875
[mk-app] #4480 = #4479 #120
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #4481 proj%core!ops.arith.Div./Output #120 #1875 #3658 #1875
[attach-meaning] #272 arith 64
[mk-app] #4482 = #4481 #1875
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4483 proj%%core!ops.arith.Div./Output #120 #1896 #120 #1896
[mk-app] #4484 = #4483 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4485 proj%core!ops.arith.Div./Output #120 #1896 #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #4486 = #4485 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4487 proj%%core!ops.arith.Div./Output #120 #1896 #3658 #1896
[mk-app] #4488 = #4487 #120
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #4489 proj%core!ops.arith.Div./Output #120 #1896 #3658 #1896
[attach-meaning] #289 arith 128
[mk-app] #4490 = #4489 #1896
[attach-meaning] #270 arith 32
[mk-app] #4491 proj%%core!ops.arith.Div./Output #120 #1976 #120 #1749
[mk-app] #4492 = #4491 #120
[attach-meaning] #270 arith 32
[mk-app] #4493 proj%core!ops.arith.Div./Output #120 #1976 #120 #1749
[mk-app] #4494 = #4493 #1976
[mk-app] #4495 proj%%core!ops.arith.Div./Output #120 #184 #120 #184
[mk-app] #4496 = #4495 #120
[mk-app] #4497 proj%core!ops.arith.Div./Output #120 #184 #120 #184
[mk-app] #4498 = #4497 #184
[mk-app] #4499 proj%%core!ops.arith.Div./Output #120 #195 #120 #195
[mk-app] #4500 = #4499 #120
[mk-app] #4501 proj%core!ops.arith.Div./Output #120 #195 #120 #195
[mk-app] #4502 = #4501 #195
[mk-app] #4503 proj%%core!ops.arith.Neg./Output #120 #1813
[mk-app] #4504 = #4503 #120
[mk-app] #4505 proj%core!ops.arith.Neg./Output #120 #1813
[mk-app] #4506 = #4505 #1813
[attach-meaning] #279 arith 16
[mk-app] #4507 proj%%core!ops.arith.Neg./Output #120 #1834
[mk-app] #4508 = #4507 #120
[attach-meaning] #279 arith 16
[mk-app] #4509 proj%core!ops.arith.Neg./Output #120 #1834
[attach-meaning] #279 arith 16
[mk-app] #4510 = #4509 #1834
[attach-meaning] #270 arith 32
[mk-app] #4511 proj%%core!ops.arith.Neg./Output #120 #1855
[mk-app] #4512 = #4511 #120
[attach-meaning] #270 arith 32
[mk-app] #4513 proj%core!ops.arith.Neg./Output #120 #1855
[attach-meaning] #270 arith 32
[mk-app] #4514 = #4513 #1855
[attach-meaning] #272 arith 64
[mk-app] #4515 proj%%core!ops.arith.Neg./Output #120 #1876
[mk-app] #4516 = #4515 #120
[attach-meaning] #272 arith 64
[mk-app] #4517 proj%core!ops.arith.Neg./Output #120 #1876
[attach-meaning] #272 arith 64
[mk-app] #4518 = #4517 #1876
[attach-meaning] #289 arith 128
[mk-app] #4519 proj%%core!ops.arith.Neg./Output #120 #1897
[mk-app] #4520 = #4519 #120
[attach-meaning] #289 arith 128
[mk-app] #4521 proj%core!ops.arith.Neg./Output #120 #1897
[attach-meaning] #289 arith 128
[mk-app] #4522 = #4521 #1897
[mk-app] #4523 proj%%core!ops.arith.Neg./Output #120 #1937
[mk-app] #4524 = #4523 #120
[mk-app] #4525 proj%core!ops.arith.Neg./Output #120 #1937
[mk-app] #4526 = #4525 #1937
[mk-app] #4527 proj%%core!ops.arith.Neg./Output #3658 #1813
[mk-app] #4528 = #4527 #120
[mk-app] #4529 proj%core!ops.arith.Neg./Output #3658 #1813
[mk-app] #4530 = #4529 #1813
[attach-meaning] #279 arith 16
[mk-app] #4531 proj%%core!ops.arith.Neg./Output #3658 #1834
[mk-app] #4532 = #4531 #120
[attach-meaning] #279 arith 16
[mk-app] #4533 proj%core!ops.arith.Neg./Output #3658 #1834
[attach-meaning] #279 arith 16
[mk-app] #4534 = #4533 #1834
[attach-meaning] #270 arith 32
[mk-app] #4535 proj%%core!ops.arith.Neg./Output #3658 #1855
[mk-app] #4536 = #4535 #120
[attach-meaning] #270 arith 32
[mk-app] #4537 proj%core!ops.arith.Neg./Output #3658 #1855
[attach-meaning] #270 arith 32
[mk-app] #4538 = #4537 #1855
[attach-meaning] #272 arith 64
[mk-app] #4539 proj%%core!ops.arith.Neg./Output #3658 #1876
[mk-app] #4540 = #4539 #120
[attach-meaning] #272 arith 64
[mk-app] #4541 proj%core!ops.arith.Neg./Output #3658 #1876
[attach-meaning] #272 arith 64
[mk-app] #4542 = #4541 #1876
[attach-meaning] #289 arith 128
[mk-app] #4543 proj%%core!ops.arith.Neg./Output #3658 #1897
[mk-app] #4544 = #4543 #120
[attach-meaning] #289 arith 128
[mk-app] #4545 proj%core!ops.arith.Neg./Output #3658 #1897
[attach-meaning] #289 arith 128
[mk-app] #4546 = #4545 #1897
[mk-app] #4547 proj%%core!ops.arith.Neg./Output #3658 #1937
[mk-app] #4548 = #4547 #120
[mk-app] #4549 proj%core!ops.arith.Neg./Output #3658 #1937
[mk-app] #4550 = #4549 #1937
[mk-app] #4551 proj%%core!ops.arith.Neg./Output #3658 #211
[mk-app] #4552 = #4551 #120
[mk-app] #4553 proj%core!ops.arith.Neg./Output #3658 #211
[mk-app] #4554 = #4553 #211
[mk-app] #4555 proj%%core!ops.arith.Neg./Output #3658 #1812
[mk-app] #4556 = #4555 #120
[mk-app] #4557 proj%core!ops.arith.Neg./Output #3658 #1812
[mk-app] #4558 = #4557 #1812
[attach-meaning] #279 arith 16
[mk-app] #4559 proj%%core!ops.arith.Neg./Output #3658 #1833
[mk-app] #4560 = #4559 #120
[attach-meaning] #279 arith 16
[mk-app] #4561 proj%core!ops.arith.Neg./Output #3658 #1833
[attach-meaning] #279 arith 16
[mk-app] #4562 = #4561 #1833
[attach-meaning] #270 arith 32
[mk-app] #4563 proj%%core!ops.arith.Neg./Output #3658 #1854
[mk-app] #4564 = #4563 #120
[attach-meaning] #270 arith 32
[mk-app] #4565 proj%core!ops.arith.Neg./Output #3658 #1854
[attach-meaning] #270 arith 32
[mk-app] #4566 = #4565 #1854
[attach-meaning] #272 arith 64
[mk-app] #4567 proj%%core!ops.arith.Neg./Output #3658 #1875
[mk-app] #4568 = #4567 #120
[attach-meaning] #272 arith 64
[mk-app] #4569 proj%core!ops.arith.Neg./Output #3658 #1875
[attach-meaning] #272 arith 64
[mk-app] #4570 = #4569 #1875
[attach-meaning] #289 arith 128
[mk-app] #4571 proj%%core!ops.arith.Neg./Output #3658 #1896
[mk-app] #4572 = #4571 #120
[attach-meaning] #289 arith 128
[mk-app] #4573 proj%core!ops.arith.Neg./Output #3658 #1896
[attach-meaning] #289 arith 128
[mk-app] #4574 = #4573 #1896
[mk-app] #4575 proj%%core!ops.arith.Neg./Output #120 #211
[mk-app] #4576 = #4575 #120
[mk-app] #4577 proj%core!ops.arith.Neg./Output #120 #211
[mk-app] #4578 = #4577 #211
[mk-app] #4579 proj%%core!ops.arith.Neg./Output #120 #1812
[mk-app] #4580 = #4579 #120
[mk-app] #4581 proj%core!ops.arith.Neg./Output #120 #1812
[mk-app] #4582 = #4581 #1812
[attach-meaning] #279 arith 16
[mk-app] #4583 proj%%core!ops.arith.Neg./Output #120 #1833
[mk-app] #4584 = #4583 #120
[attach-meaning] #279 arith 16
[mk-app] #4585 proj%core!ops.arith.Neg./Output #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #4586 = #4585 #1833
[attach-meaning] #270 arith 32
[mk-app] #4587 proj%%core!ops.arith.Neg./Output #120 #1854
[mk-app] #4588 = #4587 #120
[attach-meaning] #270 arith 32
[mk-app] #4589 proj%core!ops.arith.Neg./Output #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #4590 = #4589 #1854
[attach-meaning] #272 arith 64
[mk-app] #4591 proj%%core!ops.arith.Neg./Output #120 #1875
[mk-app] #4592 = #4591 #120
[attach-meaning] #272 arith 64
[mk-app] #4593 proj%core!ops.arith.Neg./Output #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #4594 = #4593 #1875
[attach-meaning] #289 arith 128
[mk-app] #4595 proj%%core!ops.arith.Neg./Output #120 #1896
[mk-app] #4596 = #4595 #120
[attach-meaning] #289 arith 128
[mk-app] #4597 proj%core!ops.arith.Neg./Output #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #4598 = #4597 #1896
[mk-app] #4599 proj%%core!ops.arith.Neg./Output #120 #184
[mk-app] #4600 = #4599 #120
[mk-app] #4601 proj%core!ops.arith.Neg./Output #120 #184
[mk-app] #4602 = #4601 #184
[mk-app] #4603 tr_bound%core!marker.Tuple. #1593 #263
[mk-app] #4604 tr_bound%core!ops.function.Fn. #44 #45 #1593 #263
[mk-app] #4605 and #2799 #4603 #4604
[mk-app] #4606 proj%%core!ops.function.FnOnce./Output #3439 #45 #1593 #263
[mk-app] #4607 proj%%core!ops.function.FnOnce./Output #44 #45 #1593 #263
[mk-app] #4608 = #4606 #4607
[mk-app] #4609 => #4605 #4608
[mk-app] #4610 pattern #4606
[mk-quant] #4611 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_true_definition 4 #4610 #4609
[attach-var-names] #4611 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4612 not #4605
[mk-app] #4613 or #4612 #4608
[inst-discovered] theory-solving 0x0 basic# ; #4609
[mk-app] #4614 = #4609 #4613
[instance] 0x0 #4614
[attach-enode] #4614 0
[end-of-instance]
[mk-quant] #4614 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_true_definition 4 #4610 #4613
[attach-var-names] #4614 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4615 proj%core!ops.function.FnOnce./Output #3439 #45 #1593 #263
[mk-app] #4616 proj%core!ops.function.FnOnce./Output #44 #45 #1593 #263
[mk-app] #4617 = #4615 #4616
[mk-app] #4618 => #4605 #4617
[mk-app] #4619 pattern #4615
[mk-quant] #4620 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_false_definition 4 #4619 #4618
[attach-var-names] #4620 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4621 or #4612 #4617
[inst-discovered] theory-solving 0x0 basic# ; #4618
[mk-app] #4622 = #4618 #4621
[instance] 0x0 #4622
[attach-enode] #4622 0
[end-of-instance]
[mk-quant] #4622 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_false_definition 4 #4619 #4621
[attach-var-names] #4622 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4623 tr_bound%core!ops.function.FnMut. #44 #45 #1593 #263
[mk-app] #4624 and #2799 #4603 #4623
[mk-app] #4625 proj%%core!ops.function.FnOnce./Output #120 #46 #1593 #263
[mk-app] #4626 = #4625 #4607
[mk-app] #4627 => #4624 #4626
[mk-app] #4628 pattern #4625
[mk-quant] #4629 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_true_definition 4 #4628 #4627
[attach-var-names] #4629 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4630 not #4624
[mk-app] #4631 or #4630 #4626
[inst-discovered] theory-solving 0x0 basic# ; #4627
[mk-app] #4632 = #4627 #4631
[instance] 0x0 #4632
[attach-enode] #4632 0
[end-of-instance]
[mk-quant] #4632 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_true_definition 4 #4628 #4631
[attach-var-names] #4632 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4633 proj%core!ops.function.FnOnce./Output #120 #46 #1593 #263
[mk-app] #4634 = #4633 #4616
[mk-app] #4635 => #4624 #4634
[mk-app] #4636 pattern #4633
[mk-quant] #4637 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_false_definition 4 #4636 #4635
[attach-var-names] #4637 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4638 or #4630 #4634
[inst-discovered] theory-solving 0x0 basic# ; #4635
[mk-app] #4639 = #4635 #4638
[instance] 0x0 #4639
[attach-enode] #4639 0
[end-of-instance]
[mk-quant] #4639 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_false_definition 4 #4636 #4638
[attach-var-names] #4639 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4640 tr_bound%core!marker.Tuple. #1592 #1573
[mk-app] #4641 tr_bound%core!ops.function.FnOnce. #1593 #263 #1592 #1573
[mk-app] #4642 and #2798 #2788 #4640 #4641 #2891
[mk-app] #4643 BOX #44 #45 #1593
[mk-app] #4644 proj%%core!ops.function.FnOnce./Output #4643 #263 #1592 #1573
[mk-app] #4645 proj%%core!ops.function.FnOnce./Output #1593 #263 #1592 #1573
[mk-app] #4646 = #4644 #4645
[mk-app] #4647 => #4642 #4646
[mk-app] #4648 pattern #4644
[mk-quant] #4649 internal_proj____core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_true_definition 6 #4648 #4647
[attach-var-names] #4649 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #4650 not #4642
[mk-app] #4651 or #4650 #4646
[inst-discovered] theory-solving 0x0 basic# ; #4647
[mk-app] #4652 = #4647 #4651
[instance] 0x0 #4652
[attach-enode] #4652 0
[end-of-instance]
[mk-quant] #4652 internal_proj____core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_true_definition 6 #4648 #4651
[attach-var-names] #4652 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #4653 proj%core!ops.function.FnOnce./Output #4643 #263 #1592 #1573
[mk-app] #4654 proj%core!ops.function.FnOnce./Output #1593 #263 #1592 #1573
[mk-app] #4655 = #4653 #4654
[mk-app] #4656 => #4642 #4655
[mk-app] #4657 pattern #4653
[mk-quant] #4658 internal_proj__core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_false_definition 6 #4657 #4656
[attach-var-names] #4658 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #4659 or #4650 #4655
[inst-discovered] theory-solving 0x0 basic# ; #4656
[mk-app] #4660 = #4656 #4659
[instance] 0x0 #4660
[attach-enode] #4660 0
[end-of-instance]
[mk-quant] #4660 internal_proj__core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_false_definition 6 #4657 #4659
[attach-var-names] #4660 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #4661 and #2788 #2894
[mk-app] #4662 = #2911 #2895
[mk-app] #4663 => #4661 #4662
[mk-app] #4664 pattern #2911
[mk-quant] #4665 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #4664 #4663
[attach-var-names] #4665 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4666 not #4661
[mk-app] #4667 or #4666 #4662
[inst-discovered] theory-solving 0x0 basic# ; #4663
[mk-app] #4668 = #4663 #4667
[instance] 0x0 #4668
[attach-enode] #4668 0
[end-of-instance]
[mk-quant] #4668 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #4664 #4667
[attach-var-names] #4668 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4669 proj%core!iter.traits.iterator.Iterator./Item #44 #45
[mk-app] #4670 = #2917 #4669
[mk-app] #4671 => #4661 #4670
[mk-app] #4672 pattern #2917
[mk-quant] #4673 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #4672 #4671
[attach-var-names] #4673 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4674 or #4666 #4670
[inst-discovered] theory-solving 0x0 basic# ; #4671
[mk-app] #4675 = #4671 #4674
[instance] 0x0 #4675
[attach-enode] #4675 0
[end-of-instance]
[mk-quant] #4675 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #4672 #4674
[attach-var-names] #4675 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4676 = #2913 #44
[mk-app] #4677 => #4661 #4676
[mk-app] #4678 pattern #2913
[mk-quant] #4679 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #4678 #4677
[attach-var-names] #4679 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4680 or #4666 #4676
[inst-discovered] theory-solving 0x0 basic# ; #4677
[mk-app] #4681 = #4677 #4680
[instance] 0x0 #4681
[attach-enode] #4681 0
[end-of-instance]
[mk-quant] #4681 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #4678 #4680
[attach-var-names] #4681 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4682 = #2914 #45
[mk-app] #4683 => #4661 #4682
[mk-app] #4684 pattern #2914
[mk-quant] #4685 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #4684 #4683
[attach-var-names] #4685 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4686 or #4666 #4682
[inst-discovered] theory-solving 0x0 basic# ; #4683
[mk-app] #4687 = #4683 #4686
[instance] 0x0 #4687
[attach-enode] #4687 0
[end-of-instance]
[mk-quant] #4687 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #4684 #4686
[attach-var-names] #4687 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4688 proj%%core!iter.traits.collect.IntoIterator./Item #3658 #3387
[mk-app] #4689 REF #1593
[mk-app] #4690 = #4688 #4689
[mk-app] #4691 => #3386 #4690
[mk-app] #4692 pattern #4688
[mk-quant] #4693 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_true_definition 4 #4692 #4691
[attach-var-names] #4693 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4694 or #3393 #4690
[inst-discovered] theory-solving 0x0 basic# ; #4691
[mk-app] #4695 = #4691 #4694
[instance] 0x0 #4695
[attach-enode] #4695 0
[end-of-instance]
[mk-quant] #4695 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_true_definition 4 #4692 #4694
[attach-var-names] #4695 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4696 proj%core!iter.traits.collect.IntoIterator./Item #3658 #3387
[mk-app] #4697 = #4696 #263
[mk-app] #4698 => #3386 #4697
[mk-app] #4699 pattern #4696
[mk-quant] #4700 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_false_definition 4 #4699 #4698
[attach-var-names] #4700 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4701 or #3393 #4697
[inst-discovered] theory-solving 0x0 basic# ; #4698
[mk-app] #4702 = #4698 #4701
[instance] 0x0 #4702
[attach-enode] #4702 0
[end-of-instance]
[mk-quant] #4702 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_false_definition 4 #4699 #4701
[attach-var-names] #4702 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4703 proj%%core!iter.traits.collect.IntoIterator./IntoIter #3658 #3387
[mk-app] #4704 = #4703 #120
[mk-app] #4705 => #3386 #4704
[mk-app] #4706 pattern #4703
[mk-quant] #4707 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_true_definition 4 #4706 #4705
[attach-var-names] #4707 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4708 or #3393 #4704
[inst-discovered] theory-solving 0x0 basic# ; #4705
[mk-app] #4709 = #4705 #4708
[instance] 0x0 #4709
[attach-enode] #4709 0
[end-of-instance]
[mk-quant] #4709 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_true_definition 4 #4706 #4708
[attach-var-names] #4709 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4710 proj%core!iter.traits.collect.IntoIterator./IntoIter #3658 #3387
[mk-app] #4711 TYPE%core!slice.iter.Iter. #1593 #263
[mk-app] #4712 = #4710 #4711
[mk-app] #4713 => #3386 #4712
[mk-app] #4714 pattern #4710
[mk-quant] #4715 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_false_definition 4 #4714 #4713
[attach-var-names] #4715 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4716 or #3393 #4712
[inst-discovered] theory-solving 0x0 basic# ; #4713
[mk-app] #4717 = #4713 #4716
[instance] 0x0 #4717
[attach-enode] #4717 0
[end-of-instance]
[mk-quant] #4717 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_false_definition 4 #4714 #4716
[attach-var-names] #4717 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4718 REF #1542
[mk-app] #4719 proj%%core!iter.traits.collect.IntoIterator./Item #4718 #3423
[mk-app] #4720 = #4719 #3439
[mk-app] #4721 => #2788 #4720
[mk-app] #4722 pattern #4719
[mk-quant] #4723 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__1_assoc_type_impl_true_definition 2 #4722 #4721
[attach-var-names] #4723 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4724 or #3429 #4720
[inst-discovered] theory-solving 0x0 basic# ; #4721
[mk-app] #4725 = #4721 #4724
[instance] 0x0 #4725
[attach-enode] #4725 0
[end-of-instance]
[mk-quant] #4725 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__1_assoc_type_impl_true_definition 2 #4722 #4724
[attach-var-names] #4725 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4726 proj%core!iter.traits.collect.IntoIterator./Item #4718 #3423
[mk-app] #4727 = #4726 #45
[mk-app] #4728 => #2788 #4727
[mk-app] #4729 pattern #4726
[mk-quant] #4730 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__1_assoc_type_impl_false_definition 2 #4729 #4728
[attach-var-names] #4730 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4731 or #3429 #4727
[inst-discovered] theory-solving 0x0 basic# ; #4728
[mk-app] #4732 = #4728 #4731
[instance] 0x0 #4732
[attach-enode] #4732 0
[end-of-instance]
[mk-quant] #4732 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__1_assoc_type_impl_false_definition 2 #4729 #4731
[attach-var-names] #4732 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4733 proj%%core!iter.traits.collect.IntoIterator./IntoIter #4718 #3423
[mk-app] #4734 = #4733 #120
[mk-app] #4735 => #2788 #4734
[mk-app] #4736 pattern #4733
[mk-quant] #4737 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__1_assoc_type_impl_true_definition 2 #4736 #4735
[attach-var-names] #4737 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4738 or #3429 #4734
[inst-discovered] theory-solving 0x0 basic# ; #4735
[mk-app] #4739 = #4735 #4738
[instance] 0x0 #4739
[attach-enode] #4739 0
[end-of-instance]
[mk-quant] #4739 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__1_assoc_type_impl_true_definition 2 #4736 #4738
[attach-var-names] #4739 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4740 proj%core!iter.traits.collect.IntoIterator./IntoIter #4718 #3423
[mk-app] #4741 TYPE%core!slice.iter.Iter. #44 #45
[mk-app] #4742 = #4740 #4741
[mk-app] #4743 => #2788 #4742
[mk-app] #4744 pattern #4740
[mk-quant] #4745 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__1_assoc_type_impl_false_definition 2 #4744 #4743
[attach-var-names] #4745 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4746 or #3429 #4742
[inst-discovered] theory-solving 0x0 basic# ; #4743
[mk-app] #4747 = #4743 #4746
[instance] 0x0 #4747
[attach-enode] #4747 0
[end-of-instance]
[mk-quant] #4747 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__1_assoc_type_impl_false_definition 2 #4744 #4746
[attach-var-names] #4747 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4748 BOX #44 #45 #1542
[mk-app] #4749 REF #4748
[mk-app] #4750 SLICE #1593 #263
[mk-app] #4751 proj%%core!iter.traits.collect.IntoIterator./IntoIter #4749 #4750
[mk-app] #4752 = #4751 #120
[mk-app] #4753 => #3502 #4752
[mk-app] #4754 pattern #4751
[mk-quant] #4755 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #4754 #4753
[attach-var-names] #4755 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4756 or #3509 #4752
[inst-discovered] theory-solving 0x0 basic# ; #4753
[mk-app] #4757 = #4753 #4756
[instance] 0x0 #4757
[attach-enode] #4757 0
[end-of-instance]
[mk-quant] #4757 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #4754 #4756
[attach-var-names] #4757 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4758 proj%core!iter.traits.collect.IntoIterator./IntoIter #4749 #4750
[mk-app] #4759 = #4758 #4711
[mk-app] #4760 => #3502 #4759
[mk-app] #4761 pattern #4758
[mk-quant] #4762 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #4761 #4760
[attach-var-names] #4762 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4763 or #3509 #4759
[inst-discovered] theory-solving 0x0 basic# ; #4760
[mk-app] #4764 = #4760 #4763
[instance] 0x0 #4764
[attach-enode] #4764 0
[end-of-instance]
[mk-quant] #4764 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #4761 #4763
[attach-var-names] #4764 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4765 proj%%core!iter.traits.collect.IntoIterator./Item #4749 #4750
[mk-app] #4766 = #4765 #4689
[mk-app] #4767 => #3502 #4766
[mk-app] #4768 pattern #4765
[mk-quant] #4769 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #4768 #4767
[attach-var-names] #4769 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4770 or #3509 #4766
[inst-discovered] theory-solving 0x0 basic# ; #4767
[mk-app] #4771 = #4767 #4770
[instance] 0x0 #4771
[attach-enode] #4771 0
[end-of-instance]
[mk-quant] #4771 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #4768 #4770
[attach-var-names] #4771 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4772 proj%core!iter.traits.collect.IntoIterator./Item #4749 #4750
[mk-app] #4773 = #4772 #263
[mk-app] #4774 => #3502 #4773
[mk-app] #4775 pattern #4772
[mk-quant] #4776 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #4775 #4774
[attach-var-names] #4776 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4777 or #3509 #4773
[inst-discovered] theory-solving 0x0 basic# ; #4774
[mk-app] #4778 = #4774 #4777
[instance] 0x0 #4778
[attach-enode] #4778 0
[end-of-instance]
[mk-quant] #4778 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #4775 #4777
[attach-var-names] #4778 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4779 proj%%core!iter.traits.collect.IntoIterator./Item #3658 #3503
[mk-app] #4780 = #4779 #4689
[mk-app] #4781 => #3502 #4780
[mk-app] #4782 pattern #4779
[mk-quant] #4783 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #4782 #4781
[attach-var-names] #4783 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4784 or #3509 #4780
[inst-discovered] theory-solving 0x0 basic# ; #4781
[mk-app] #4785 = #4781 #4784
[instance] 0x0 #4785
[attach-enode] #4785 0
[end-of-instance]
[mk-quant] #4785 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #4782 #4784
[attach-var-names] #4785 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4786 proj%core!iter.traits.collect.IntoIterator./Item #3658 #3503
[mk-app] #4787 = #4786 #263
[mk-app] #4788 => #3502 #4787
[mk-app] #4789 pattern #4786
[mk-quant] #4790 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #4789 #4788
[attach-var-names] #4790 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4791 or #3509 #4787
[inst-discovered] theory-solving 0x0 basic# ; #4788
[mk-app] #4792 = #4788 #4791
[instance] 0x0 #4792
[attach-enode] #4792 0
[end-of-instance]
[mk-quant] #4792 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #4789 #4791
[attach-var-names] #4792 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4793 proj%%core!iter.traits.collect.IntoIterator./IntoIter #3658 #3503
[mk-app] #4794 = #4793 #120
[mk-app] #4795 => #3502 #4794
[mk-app] #4796 pattern #4793
[mk-quant] #4797 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #4796 #4795
[attach-var-names] #4797 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4798 or #3509 #4794
[inst-discovered] theory-solving 0x0 basic# ; #4795
[mk-app] #4799 = #4795 #4798
[instance] 0x0 #4799
[attach-enode] #4799 0
[end-of-instance]
[mk-quant] #4799 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #4796 #4798
[attach-var-names] #4799 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4800 proj%core!iter.traits.collect.IntoIterator./IntoIter #3658 #3503
[mk-app] #4801 = #4800 #4711
[mk-app] #4802 => #3502 #4801
[mk-app] #4803 pattern #4800
[mk-quant] #4804 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #4803 #4802
[attach-var-names] #4804 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4805 or #3509 #4801
[inst-discovered] theory-solving 0x0 basic# ; #4802
[mk-app] #4806 = #4802 #4805
[instance] 0x0 #4806
[attach-enode] #4806 0
[end-of-instance]
[mk-quant] #4806 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #4803 #4805
[attach-var-names] #4806 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4807 MUTREF #120 #3387
[mk-app] #4808 proj%%core!iter.traits.collect.IntoIterator./Item #120 #4807
[mk-app] #4809 = #4808 #120
[mk-app] #4810 => #3386 #4809
[mk-app] #4811 pattern #4808
[mk-quant] #4812 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_true_definition 4 #4811 #4810
[attach-var-names] #4812 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4813 or #3393 #4809
[inst-discovered] theory-solving 0x0 basic# ; #4810
[mk-app] #4814 = #4810 #4813
[instance] 0x0 #4814
[attach-enode] #4814 0
[end-of-instance]
[mk-quant] #4814 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_true_definition 4 #4811 #4813
[attach-var-names] #4814 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4815 proj%core!iter.traits.collect.IntoIterator./Item #120 #4807
[mk-app] #4816 MUTREF #1593 #263
[mk-app] #4817 = #4815 #4816
[mk-app] #4818 => #3386 #4817
[mk-app] #4819 pattern #4815
[mk-quant] #4820 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_false_definition 4 #4819 #4818
[attach-var-names] #4820 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4821 or #3393 #4817
[inst-discovered] theory-solving 0x0 basic# ; #4818
[mk-app] #4822 = #4818 #4821
[instance] 0x0 #4822
[attach-enode] #4822 0
[end-of-instance]
[mk-quant] #4822 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_false_definition 4 #4819 #4821
[attach-var-names] #4822 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4823 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #4807
[mk-app] #4824 = #4823 #120
[mk-app] #4825 => #3386 #4824
[mk-app] #4826 pattern #4823
[mk-quant] #4827 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_true_definition 4 #4826 #4825
[attach-var-names] #4827 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4828 or #3393 #4824
[inst-discovered] theory-solving 0x0 basic# ; #4825
[mk-app] #4829 = #4825 #4828
[instance] 0x0 #4829
[attach-enode] #4829 0
[end-of-instance]
[mk-quant] #4829 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_true_definition 4 #4826 #4828
[attach-var-names] #4829 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4830 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #4807
[mk-app] #4831 TYPE%core!slice.iter.IterMut. #1593 #263
[mk-app] #4832 = #4830 #4831
[mk-app] #4833 => #3386 #4832
[mk-app] #4834 pattern #4830
[mk-quant] #4835 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_false_definition 4 #4834 #4833
[attach-var-names] #4835 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4836 or #3393 #4832
[inst-discovered] theory-solving 0x0 basic# ; #4833
[mk-app] #4837 = #4833 #4836
[instance] 0x0 #4837
[attach-enode] #4837 0
[end-of-instance]
[mk-quant] #4837 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_false_definition 4 #4834 #4836
[attach-var-names] #4837 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4838 MUTREF #1542 #3423
[mk-app] #4839 proj%%core!iter.traits.collect.IntoIterator./Item #120 #4838
[mk-app] #4840 = #4839 #120
[mk-app] #4841 => #2788 #4840
[mk-app] #4842 pattern #4839
[mk-quant] #4843 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__2_assoc_type_impl_true_definition 2 #4842 #4841
[attach-var-names] #4843 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4844 or #3429 #4840
[inst-discovered] theory-solving 0x0 basic# ; #4841
[mk-app] #4845 = #4841 #4844
[instance] 0x0 #4845
[attach-enode] #4845 0
[end-of-instance]
[mk-quant] #4845 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__2_assoc_type_impl_true_definition 2 #4842 #4844
[attach-var-names] #4845 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4846 proj%core!iter.traits.collect.IntoIterator./Item #120 #4838
[mk-app] #4847 = #4846 #46
[mk-app] #4848 => #2788 #4847
[mk-app] #4849 pattern #4846
[mk-quant] #4850 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__2_assoc_type_impl_false_definition 2 #4849 #4848
[attach-var-names] #4850 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4851 or #3429 #4847
[inst-discovered] theory-solving 0x0 basic# ; #4848
[mk-app] #4852 = #4848 #4851
[instance] 0x0 #4852
[attach-enode] #4852 0
[end-of-instance]
[mk-quant] #4852 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__2_assoc_type_impl_false_definition 2 #4849 #4851
[attach-var-names] #4852 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4853 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #4838
[mk-app] #4854 = #4853 #120
[mk-app] #4855 => #2788 #4854
[mk-app] #4856 pattern #4853
[mk-quant] #4857 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__2_assoc_type_impl_true_definition 2 #4856 #4855
[attach-var-names] #4857 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4858 or #3429 #4854
[inst-discovered] theory-solving 0x0 basic# ; #4855
[mk-app] #4859 = #4855 #4858
[instance] 0x0 #4859
[attach-enode] #4859 0
[end-of-instance]
[mk-quant] #4859 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__2_assoc_type_impl_true_definition 2 #4856 #4858
[attach-var-names] #4859 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4860 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #4838
[mk-app] #4861 TYPE%core!slice.iter.IterMut. #44 #45
[mk-app] #4862 = #4860 #4861
[mk-app] #4863 => #2788 #4862
[mk-app] #4864 pattern #4860
[mk-quant] #4865 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__2_assoc_type_impl_false_definition 2 #4864 #4863
[attach-var-names] #4865 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4866 or #3429 #4862
[inst-discovered] theory-solving 0x0 basic# ; #4863
[mk-app] #4867 = #4863 #4866
[instance] 0x0 #4867
[attach-enode] #4867 0
[end-of-instance]
[mk-quant] #4867 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__2_assoc_type_impl_false_definition 2 #4864 #4866
[attach-var-names] #4867 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4868 MUTREF #4748 #4750
[mk-app] #4869 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #4868
[mk-app] #4870 = #4869 #120
[mk-app] #4871 => #3502 #4870
[mk-app] #4872 pattern #4869
[mk-quant] #4873 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #4872 #4871
[attach-var-names] #4873 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4874 or #3509 #4870
[inst-discovered] theory-solving 0x0 basic# ; #4871
[mk-app] #4875 = #4871 #4874
[instance] 0x0 #4875
[attach-enode] #4875 0
[end-of-instance]
[mk-quant] #4875 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #4872 #4874
[attach-var-names] #4875 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4876 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #4868
[mk-app] #4877 = #4876 #4831
[mk-app] #4878 => #3502 #4877
[mk-app] #4879 pattern #4876
[mk-quant] #4880 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #4879 #4878
[attach-var-names] #4880 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4881 or #3509 #4877
[inst-discovered] theory-solving 0x0 basic# ; #4878
[mk-app] #4882 = #4878 #4881
[instance] 0x0 #4882
[attach-enode] #4882 0
[end-of-instance]
[mk-quant] #4882 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #4879 #4881
[attach-var-names] #4882 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4883 proj%%core!iter.traits.collect.IntoIterator./Item #120 #4868
[mk-app] #4884 = #4883 #120
[mk-app] #4885 => #3502 #4884
[mk-app] #4886 pattern #4883
[mk-quant] #4887 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #4886 #4885
[attach-var-names] #4887 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4888 or #3509 #4884
[inst-discovered] theory-solving 0x0 basic# ; #4885
[mk-app] #4889 = #4885 #4888
[instance] 0x0 #4889
[attach-enode] #4889 0
[end-of-instance]
[mk-quant] #4889 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #4886 #4888
[attach-var-names] #4889 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4890 proj%core!iter.traits.collect.IntoIterator./Item #120 #4868
[mk-app] #4891 = #4890 #4816
[mk-app] #4892 => #3502 #4891
[mk-app] #4893 pattern #4890
[mk-quant] #4894 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #4893 #4892
[attach-var-names] #4894 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4895 or #3509 #4891
[inst-discovered] theory-solving 0x0 basic# ; #4892
[mk-app] #4896 = #4892 #4895
[instance] 0x0 #4896
[attach-enode] #4896 0
[end-of-instance]
[mk-quant] #4896 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #4893 #4895
[attach-var-names] #4896 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4897 MUTREF #120 #3503
[mk-app] #4898 proj%%core!iter.traits.collect.IntoIterator./Item #120 #4897
[mk-app] #4899 = #4898 #120
[mk-app] #4900 => #3502 #4899
[mk-app] #4901 pattern #4898
[mk-quant] #4902 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #4901 #4900
[attach-var-names] #4902 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4903 or #3509 #4899
[inst-discovered] theory-solving 0x0 basic# ; #4900
[mk-app] #4904 = #4900 #4903
[instance] 0x0 #4904
[attach-enode] #4904 0
[end-of-instance]
[mk-quant] #4904 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #4901 #4903
[attach-var-names] #4904 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4905 proj%core!iter.traits.collect.IntoIterator./Item #120 #4897
[mk-app] #4906 = #4905 #4816
[mk-app] #4907 => #3502 #4906
[mk-app] #4908 pattern #4905
[mk-quant] #4909 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #4908 #4907
[attach-var-names] #4909 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4910 or #3509 #4906
[inst-discovered] theory-solving 0x0 basic# ; #4907
[mk-app] #4911 = #4907 #4910
[instance] 0x0 #4911
[attach-enode] #4911 0
[end-of-instance]
[mk-quant] #4911 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #4908 #4910
[attach-var-names] #4911 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4912 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #4897
[mk-app] #4913 = #4912 #120
[mk-app] #4914 => #3502 #4913
[mk-app] #4915 pattern #4912
[mk-quant] #4916 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #4915 #4914
[attach-var-names] #4916 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4917 or #3509 #4913
[inst-discovered] theory-solving 0x0 basic# ; #4914
[mk-app] #4918 = #4914 #4917
[instance] 0x0 #4918
[attach-enode] #4918 0
[end-of-instance]
[mk-quant] #4918 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #4915 #4917
[attach-var-names] #4918 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4919 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #4897
[mk-app] #4920 = #4919 #4831
[mk-app] #4921 => #3502 #4920
[mk-app] #4922 pattern #4919
[mk-quant] #4923 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #4922 #4921
[attach-var-names] #4923 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4924 or #3509 #4920
[inst-discovered] theory-solving 0x0 basic# ; #4921
[mk-app] #4925 = #4921 #4924
[instance] 0x0 #4925
[attach-enode] #4925 0
[end-of-instance]
[mk-quant] #4925 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #4922 #4924
[attach-var-names] #4925 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4926 proj%%core!iter.traits.collect.IntoIterator./IntoIter #4748 #4750
[mk-app] #4927 = #4926 #120
[mk-app] #4928 => #3502 #4927
[mk-app] #4929 pattern #4926
[mk-quant] #4930 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #4929 #4928
[attach-var-names] #4930 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4931 or #3509 #4927
[inst-discovered] theory-solving 0x0 basic# ; #4928
[mk-app] #4932 = #4928 #4931
[instance] 0x0 #4932
[attach-enode] #4932 0
[end-of-instance]
[mk-quant] #4932 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #4929 #4931
[attach-var-names] #4932 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4933 proj%core!iter.traits.collect.IntoIterator./IntoIter #4748 #4750
[mk-app] #4934 TYPE%alloc!vec.into_iter.IntoIter. #1593 #263 #44 #45
[mk-app] #4935 = #4933 #4934
[mk-app] #4936 => #3502 #4935
[mk-app] #4937 pattern #4933
[mk-quant] #4938 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #4937 #4936
[attach-var-names] #4938 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4939 or #3509 #4935
[inst-discovered] theory-solving 0x0 basic# ; #4936
[mk-app] #4940 = #4936 #4939
[instance] 0x0 #4940
[attach-enode] #4940 0
[end-of-instance]
[mk-quant] #4940 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #4937 #4939
[attach-var-names] #4940 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4941 proj%%core!iter.traits.collect.IntoIterator./Item #4748 #4750
[mk-app] #4942 = #4941 #1593
[mk-app] #4943 => #3502 #4942
[mk-app] #4944 pattern #4941
[mk-quant] #4945 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #4944 #4943
[attach-var-names] #4945 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4946 or #3509 #4942
[inst-discovered] theory-solving 0x0 basic# ; #4943
[mk-app] #4947 = #4943 #4946
[instance] 0x0 #4947
[attach-enode] #4947 0
[end-of-instance]
[mk-quant] #4947 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #4944 #4946
[attach-var-names] #4947 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4948 proj%core!iter.traits.collect.IntoIterator./Item #4748 #4750
[mk-app] #4949 = #4948 #263
[mk-app] #4950 => #3502 #4949
[mk-app] #4951 pattern #4948
[mk-quant] #4952 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #4951 #4950
[attach-var-names] #4952 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4953 or #3509 #4949
[inst-discovered] theory-solving 0x0 basic# ; #4950
[mk-app] #4954 = #4950 #4953
[instance] 0x0 #4954
[attach-enode] #4954 0
[end-of-instance]
[mk-quant] #4954 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #4951 #4953
[attach-var-names] #4954 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4955 proj%%core!iter.traits.collect.IntoIterator./Item #120 #3503
[mk-app] #4956 = #4955 #1593
[mk-app] #4957 => #3502 #4956
[mk-app] #4958 pattern #4955
[mk-quant] #4959 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #4958 #4957
[attach-var-names] #4959 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4960 or #3509 #4956
[inst-discovered] theory-solving 0x0 basic# ; #4957
[mk-app] #4961 = #4957 #4960
[instance] 0x0 #4961
[attach-enode] #4961 0
[end-of-instance]
[mk-quant] #4961 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #4958 #4960
[attach-var-names] #4961 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4962 proj%core!iter.traits.collect.IntoIterator./Item #120 #3503
[mk-app] #4963 = #4962 #263
[mk-app] #4964 => #3502 #4963
[mk-app] #4965 pattern #4962
[mk-quant] #4966 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #4965 #4964
[attach-var-names] #4966 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4967 or #3509 #4963
[inst-discovered] theory-solving 0x0 basic# ; #4964
[mk-app] #4968 = #4964 #4967
[instance] 0x0 #4968
[attach-enode] #4968 0
[end-of-instance]
[mk-quant] #4968 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #4965 #4967
[attach-var-names] #4968 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4969 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #3503
[mk-app] #4970 = #4969 #120
[mk-app] #4971 => #3502 #4970
[mk-app] #4972 pattern #4969
[mk-quant] #4973 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #4972 #4971
[attach-var-names] #4973 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4974 or #3509 #4970
[inst-discovered] theory-solving 0x0 basic# ; #4971
[mk-app] #4975 = #4971 #4974
[instance] 0x0 #4975
[attach-enode] #4975 0
[end-of-instance]
[mk-quant] #4975 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #4972 #4974
[attach-var-names] #4975 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4976 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #3503
[mk-app] #4977 = #4976 #4934
[mk-app] #4978 => #3502 #4977
[mk-app] #4979 pattern #4976
[mk-quant] #4980 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #4979 #4978
[attach-var-names] #4980 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4981 or #3509 #4977
[inst-discovered] theory-solving 0x0 basic# ; #4978
[mk-app] #4982 = #4978 #4981
[instance] 0x0 #4982
[attach-enode] #4982 0
[end-of-instance]
[mk-quant] #4982 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #4979 #4981
[attach-var-names] #4982 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4983 and #2788 #2903
[mk-app] #4984 TYPE%core!iter.adapters.rev.Rev. #44 #45
[mk-app] #4985 proj%%core!iter.traits.iterator.Iterator./Item #120 #4984
[mk-app] #4986 = #4985 #2895
[mk-app] #4987 => #4983 #4986
[mk-app] #4988 pattern #4985
[mk-quant] #4989 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__adapters__rev__impl&__1_assoc_type_impl_true_definition 2 #4988 #4987
[attach-var-names] #4989 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4990 not #4983
[mk-app] #4991 or #4990 #4986
[inst-discovered] theory-solving 0x0 basic# ; #4987
[mk-app] #4992 = #4987 #4991
[instance] 0x0 #4992
[attach-enode] #4992 0
[end-of-instance]
[mk-quant] #4992 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__adapters__rev__impl&__1_assoc_type_impl_true_definition 2 #4988 #4991
[attach-var-names] #4992 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4993 proj%core!iter.traits.iterator.Iterator./Item #120 #4984
[mk-app] #4994 = #4993 #4669
[mk-app] #4995 => #4983 #4994
[mk-app] #4996 pattern #4993
[mk-quant] #4997 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__adapters__rev__impl&__1_assoc_type_impl_false_definition 2 #4996 #4995
[attach-var-names] #4997 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #4998 or #4990 #4994
[inst-discovered] theory-solving 0x0 basic# ; #4995
[mk-app] #4999 = #4995 #4998
[instance] 0x0 #4999
[attach-enode] #4999 0
[end-of-instance]
[mk-quant] #4999 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__adapters__rev__impl&__1_assoc_type_impl_false_definition 2 #4996 #4998
[attach-var-names] #4999 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5000 and #2788 #2931
[mk-app] #5001 TYPE%core!ops.range.Range. #44 #45
[mk-app] #5002 proj%%core!iter.traits.iterator.Iterator./Item #120 #5001
[mk-app] #5003 = #5002 #44
[mk-app] #5004 => #5000 #5003
[mk-app] #5005 pattern #5002
[mk-quant] #5006 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_true_definition 2 #5005 #5004
[attach-var-names] #5006 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5007 not #5000
[mk-app] #5008 or #5007 #5003
[inst-discovered] theory-solving 0x0 basic# ; #5004
[mk-app] #5009 = #5004 #5008
[instance] 0x0 #5009
[attach-enode] #5009 0
[end-of-instance]
[mk-quant] #5009 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_true_definition 2 #5005 #5008
[attach-var-names] #5009 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5010 proj%core!iter.traits.iterator.Iterator./Item #120 #5001
[mk-app] #5011 = #5010 #45
[mk-app] #5012 => #5000 #5011
[mk-app] #5013 pattern #5010
[mk-quant] #5014 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_false_definition 2 #5013 #5012
[attach-var-names] #5014 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5015 or #5007 #5011
[inst-discovered] theory-solving 0x0 basic# ; #5012
[mk-app] #5016 = #5012 #5015
[instance] 0x0 #5016
[attach-enode] #5016 0
[end-of-instance]
[mk-quant] #5016 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_false_definition 2 #5013 #5015
[attach-var-names] #5016 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5017 proj%%core!iter.traits.iterator.Iterator./Item #120 #3625
[mk-app] #5018 = #5017 #44
[mk-app] #5019 => #5000 #5018
[mk-app] #5020 pattern #5017
[mk-quant] #5021 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__15_assoc_type_impl_true_definition 2 #5020 #5019
[attach-var-names] #5021 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5022 or #5007 #5018
[inst-discovered] theory-solving 0x0 basic# ; #5019
[mk-app] #5023 = #5019 #5022
[instance] 0x0 #5023
[attach-enode] #5023 0
[end-of-instance]
[mk-quant] #5023 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__15_assoc_type_impl_true_definition 2 #5020 #5022
[attach-var-names] #5023 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5024 proj%core!iter.traits.iterator.Iterator./Item #120 #3625
[mk-app] #5025 = #5024 #45
[mk-app] #5026 => #5000 #5025
[mk-app] #5027 pattern #5024
[mk-quant] #5028 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__15_assoc_type_impl_false_definition 2 #5027 #5026
[attach-var-names] #5028 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5029 or #5007 #5025
[inst-discovered] theory-solving 0x0 basic# ; #5026
[mk-app] #5030 = #5026 #5029
[instance] 0x0 #5030
[attach-enode] #5030 0
[end-of-instance]
[mk-quant] #5030 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__15_assoc_type_impl_false_definition 2 #5027 #5029
[attach-var-names] #5030 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5031 proj%%core!iter.traits.iterator.Iterator./Item #120 #46
[mk-app] #5032 = #5031 #2895
[mk-app] #5033 => #2894 #5032
[mk-app] #5034 pattern #5031
[mk-quant] #5035 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__traits__iterator__impl&__2_assoc_type_impl_true_definition 2 #5034 #5033
[attach-var-names] #5035 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5036 or #2900 #5032
[inst-discovered] theory-solving 0x0 basic# ; #5033
[mk-app] #5037 = #5033 #5036
[instance] 0x0 #5037
[attach-enode] #5037 0
[end-of-instance]
[mk-quant] #5037 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__traits__iterator__impl&__2_assoc_type_impl_true_definition 2 #5034 #5036
[attach-var-names] #5037 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5038 proj%core!iter.traits.iterator.Iterator./Item #120 #46
[mk-app] #5039 = #5038 #4669
[mk-app] #5040 => #2894 #5039
[mk-app] #5041 pattern #5038
[mk-quant] #5042 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__traits__iterator__impl&__2_assoc_type_impl_false_definition 2 #5041 #5040
[attach-var-names] #5042 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5043 or #2900 #5039
[inst-discovered] theory-solving 0x0 basic# ; #5040
[mk-app] #5044 = #5040 #5043
[instance] 0x0 #5044
[attach-enode] #5044 0
[end-of-instance]
[mk-quant] #5044 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__traits__iterator__impl&__2_assoc_type_impl_false_definition 2 #5041 #5043
[attach-var-names] #5044 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5045 proj%%core!iter.traits.iterator.Iterator./Item #120 #4741
[mk-app] #5046 = #5045 #3439
[mk-app] #5047 => #2788 #5046
[mk-app] #5048 pattern #5045
[mk-quant] #5049 internal_proj____core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__171_assoc_type_impl_true_definition 2 #5048 #5047
[attach-var-names] #5049 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5050 or #3429 #5046
[inst-discovered] theory-solving 0x0 basic# ; #5047
[mk-app] #5051 = #5047 #5050
[instance] 0x0 #5051
[attach-enode] #5051 0
[end-of-instance]
[mk-quant] #5051 internal_proj____core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__171_assoc_type_impl_true_definition 2 #5048 #5050
[attach-var-names] #5051 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5052 proj%core!iter.traits.iterator.Iterator./Item #120 #4741
[mk-app] #5053 = #5052 #45
[mk-app] #5054 => #2788 #5053
[mk-app] #5055 pattern #5052
[mk-quant] #5056 internal_proj__core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__171_assoc_type_impl_false_definition 2 #5055 #5054
[attach-var-names] #5056 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5057 or #3429 #5053
[inst-discovered] theory-solving 0x0 basic# ; #5054
[mk-app] #5058 = #5054 #5057
[instance] 0x0 #5058
[attach-enode] #5058 0
[end-of-instance]
[mk-quant] #5058 internal_proj__core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__171_assoc_type_impl_false_definition 2 #5055 #5057
[attach-var-names] #5058 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5059 proj%%core!iter.traits.iterator.Iterator./Item #120 #4861
[mk-app] #5060 = #5059 #120
[mk-app] #5061 => #2788 #5060
[mk-app] #5062 pattern #5059
[mk-quant] #5063 internal_proj____core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__178_assoc_type_impl_true_definition 2 #5062 #5061
[attach-var-names] #5063 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5064 or #3429 #5060
[inst-discovered] theory-solving 0x0 basic# ; #5061
[mk-app] #5065 = #5061 #5064
[instance] 0x0 #5065
[attach-enode] #5065 0
[end-of-instance]
[mk-quant] #5065 internal_proj____core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__178_assoc_type_impl_true_definition 2 #5062 #5064
[attach-var-names] #5065 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5066 proj%core!iter.traits.iterator.Iterator./Item #120 #4861
[mk-app] #5067 = #5066 #46
[mk-app] #5068 => #2788 #5067
[mk-app] #5069 pattern #5066
[mk-quant] #5070 internal_proj__core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__178_assoc_type_impl_false_definition 2 #5069 #5068
[attach-var-names] #5070 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5071 or #3429 #5067
[inst-discovered] theory-solving 0x0 basic# ; #5068
[mk-app] #5072 = #5068 #5071
[instance] 0x0 #5072
[attach-enode] #5072 0
[end-of-instance]
[mk-quant] #5072 internal_proj__core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__178_assoc_type_impl_false_definition 2 #5069 #5071
[attach-var-names] #5072 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5073 tr_bound%core!iter.traits.iterator.Iterator. #1593 #263
[mk-app] #5074 and #2788 #5073 #2891
[mk-app] #5075 proj%%core!iter.traits.iterator.Iterator./Item #4643 #263
[mk-app] #5076 proj%%core!iter.traits.iterator.Iterator./Item #1593 #263
[mk-app] #5077 = #5075 #5076
[mk-app] #5078 => #5074 #5077
[mk-app] #5079 pattern #5075
[mk-quant] #5080 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_true_definition 4 #5079 #5078
[attach-var-names] #5080 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5081 not #5074
[mk-app] #5082 or #5081 #5077
[inst-discovered] theory-solving 0x0 basic# ; #5078
[mk-app] #5083 = #5078 #5082
[instance] 0x0 #5083
[attach-enode] #5083 0
[end-of-instance]
[mk-quant] #5083 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_true_definition 4 #5079 #5082
[attach-var-names] #5083 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5084 proj%core!iter.traits.iterator.Iterator./Item #4643 #263
[mk-app] #5085 proj%core!iter.traits.iterator.Iterator./Item #1593 #263
[mk-app] #5086 = #5084 #5085
[mk-app] #5087 => #5074 #5086
[mk-app] #5088 pattern #5084
[mk-quant] #5089 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_false_definition 4 #5088 #5087
[attach-var-names] #5089 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5090 or #5081 #5086
[inst-discovered] theory-solving 0x0 basic# ; #5087
[mk-app] #5091 = #5087 #5090
[instance] 0x0 #5091
[attach-enode] #5091 0
[end-of-instance]
[mk-quant] #5091 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_false_definition 4 #5088 #5090
[attach-var-names] #5091 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5092 proj%%core!iter.traits.iterator.Iterator./Item #120 #4934
[mk-app] #5093 = #5092 #1593
[mk-app] #5094 => #3502 #5093
[mk-app] #5095 pattern #5092
[mk-quant] #5096 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_true_definition 4 #5095 #5094
[attach-var-names] #5096 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5097 or #3509 #5093
[inst-discovered] theory-solving 0x0 basic# ; #5094
[mk-app] #5098 = #5094 #5097
[instance] 0x0 #5098
[attach-enode] #5098 0
[end-of-instance]
[mk-quant] #5098 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_true_definition 4 #5095 #5097
[attach-var-names] #5098 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5099 proj%core!iter.traits.iterator.Iterator./Item #120 #4934
[mk-app] #5100 = #5099 #263
[mk-app] #5101 => #3502 #5100
[mk-app] #5102 pattern #5099
[mk-quant] #5103 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_false_definition 4 #5102 #5101
[attach-var-names] #5103 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5104 or #3509 #5100
[inst-discovered] theory-solving 0x0 basic# ; #5101
[mk-app] #5105 = #5101 #5104
[instance] 0x0 #5105
[attach-enode] #5105 0
[end-of-instance]
[mk-quant] #5105 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_false_definition 4 #5102 #5104
[attach-var-names] #5105 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5106 DST #3439
[mk-app] #5107 TYPE%tuple%2. #4689 #263 #3439 #45
[mk-app] #5108 proj%%core!ops.function.FnOnce./Output #120 #2770 #5106 #5107
[mk-app] #5109 = #5108 #120
[mk-app] #5110 => #2855 #5109
[mk-app] #5111 pattern #5108
[mk-quant] #5112 internal_proj____core!ops.function.FnOnce./Output_core__cmp__PartialOrd__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_true_definition 4 #5111 #5110
[attach-var-names] #5112 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5113 not #2855
[mk-app] #5114 or #5113 #5109
[inst-discovered] theory-solving 0x0 basic# ; #5110
[mk-app] #5115 = #5110 #5114
[instance] 0x0 #5115
[attach-enode] #5115 0
[end-of-instance]
[mk-quant] #5115 internal_proj____core!ops.function.FnOnce./Output_core__cmp__PartialOrd__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_true_definition 4 #5111 #5114
[attach-var-names] #5115 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5116 proj%core!ops.function.FnOnce./Output #120 #2770 #5106 #5107
[mk-app] #5117 TYPE%core!option.Option. #120 #2096
[mk-app] #5118 = #5116 #5117
[mk-app] #5119 => #2855 #5118
[mk-app] #5120 pattern #5116
[mk-quant] #5121 internal_proj__core!ops.function.FnOnce./Output_core__cmp__PartialOrd__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_false_definition 4 #5120 #5119
[attach-var-names] #5121 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5122 or #5113 #5118
[inst-discovered] theory-solving 0x0 basic# ; #5119
[mk-app] #5123 = #5119 #5122
[instance] 0x0 #5123
[attach-enode] #5123 0
[end-of-instance]
[mk-quant] #5123 internal_proj__core!ops.function.FnOnce./Output_core__cmp__PartialOrd__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_false_definition 4 #5120 #5122
[attach-var-names] #5123 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5124 FNDEF%core!cmp.PartialOrd.partial_cmp. #4689 #263 #3439 #45
[mk-app] #5125 REF #3439
[mk-app] #5126 DST #5125
[mk-app] #5127 REF #4689
[mk-app] #5128 TYPE%tuple%2. #5127 #263 #5125 #45
[mk-app] #5129 proj%%core!ops.function.FnOnce./Output #120 #5124 #5126 #5128
[mk-app] #5130 = #5129 #120
[mk-app] #5131 => #2840 #5130
[mk-app] #5132 pattern #5129
[mk-quant] #5133 internal_proj____core!ops.function.FnOnce./Output_core__cmp__impls__impl&__10__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_true_definition 4 #5132 #5131
[attach-var-names] #5133 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5134 or #2844 #5130
[inst-discovered] theory-solving 0x0 basic# ; #5131
[mk-app] #5135 = #5131 #5134
[instance] 0x0 #5135
[attach-enode] #5135 0
[end-of-instance]
[mk-quant] #5135 internal_proj____core!ops.function.FnOnce./Output_core__cmp__impls__impl&__10__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_true_definition 4 #5132 #5134
[attach-var-names] #5135 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5136 proj%core!ops.function.FnOnce./Output #120 #5124 #5126 #5128
[mk-app] #5137 = #5136 #5117
[mk-app] #5138 => #2840 #5137
[mk-app] #5139 pattern #5136
[mk-quant] #5140 internal_proj__core!ops.function.FnOnce./Output_core__cmp__impls__impl&__10__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_false_definition 4 #5139 #5138
[attach-var-names] #5140 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5141 or #2844 #5137
[inst-discovered] theory-solving 0x0 basic# ; #5138
[mk-app] #5142 = #5138 #5141
[instance] 0x0 #5142
[attach-enode] #5142 0
[end-of-instance]
[mk-quant] #5142 internal_proj__core!ops.function.FnOnce./Output_core__cmp__impls__impl&__10__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_false_definition 4 #5139 #5141
[attach-var-names] #5142 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5143 DST #120
[mk-app] #5144 TYPE%tuple%1. #120 #46
[mk-app] #5145 proj%%core!ops.function.FnOnce./Output #120 #2776 #5143 #5144
[mk-app] #5146 = #5145 #120
[mk-app] #5147 => #2894 #5146
[mk-app] #5148 pattern #5145
[mk-quant] #5149 internal_proj____core!ops.function.FnOnce./Output_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #5148 #5147
[attach-var-names] #5149 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5150 or #2900 #5146
[inst-discovered] theory-solving 0x0 basic# ; #5147
[mk-app] #5151 = #5147 #5150
[instance] 0x0 #5151
[attach-enode] #5151 0
[end-of-instance]
[mk-quant] #5151 internal_proj____core!ops.function.FnOnce./Output_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #5148 #5150
[attach-var-names] #5151 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5152 proj%core!ops.function.FnOnce./Output #120 #2776 #5143 #5144
[mk-app] #5153 TYPE%core!option.Option. #2895 #4669
[mk-app] #5154 = #5152 #5153
[mk-app] #5155 => #2894 #5154
[mk-app] #5156 pattern #5152
[mk-quant] #5157 internal_proj__core!ops.function.FnOnce./Output_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #5156 #5155
[attach-var-names] #5157 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5158 or #2900 #5154
[inst-discovered] theory-solving 0x0 basic# ; #5155
[mk-app] #5159 = #5155 #5158
[instance] 0x0 #5159
[attach-enode] #5159 0
[end-of-instance]
[mk-quant] #5159 internal_proj__core!ops.function.FnOnce./Output_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #5156 #5158
[attach-var-names] #5159 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5160 FNDEF%core!iter.traits.iterator.Iterator.next. #120 #5001
[mk-app] #5161 MUTREF #120 #5001
[mk-app] #5162 TYPE%tuple%1. #120 #5161
[mk-app] #5163 proj%%core!ops.function.FnOnce./Output #120 #5160 #5143 #5162
[mk-app] #5164 = #5163 #120
[mk-app] #5165 => #5000 #5164
[mk-app] #5166 pattern #5163
[mk-quant] #5167 internal_proj____core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #5166 #5165
[attach-var-names] #5167 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5168 or #5007 #5164
[inst-discovered] theory-solving 0x0 basic# ; #5165
[mk-app] #5169 = #5165 #5168
[instance] 0x0 #5169
[attach-enode] #5169 0
[end-of-instance]
[mk-quant] #5169 internal_proj____core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #5166 #5168
[attach-var-names] #5169 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5170 proj%core!ops.function.FnOnce./Output #120 #5160 #5143 #5162
[mk-app] #5171 = #5170 #2129
[mk-app] #5172 => #5000 #5171
[mk-app] #5173 pattern #5170
[mk-quant] #5174 internal_proj__core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #5173 #5172
[attach-var-names] #5174 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5175 or #5007 #5171
[inst-discovered] theory-solving 0x0 basic# ; #5172
[mk-app] #5176 = #5172 #5175
[instance] 0x0 #5176
[attach-enode] #5176 0
[end-of-instance]
[mk-quant] #5176 internal_proj__core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #5173 #5175
[attach-var-names] #5176 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5177 TYPE%vstd!seq.Seq. #64 #65
[mk-app] #5178 has_type #33 #5177
[mk-app] #5179 vstd!seq.Seq.len.? #64 #65 #33
[mk-app] #5180 <= #336 #5179
[mk-app] #5181 => #5178 #5180
[mk-app] #5182 pattern #5179
[mk-quant] #5183 internal_vstd!seq.Seq.len.?_pre_post_definition 3 #5182 #5181
[attach-var-names] #5183 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #5184 * #365 #5179
[mk-app] #5185 >= #5179 #336
[inst-discovered] theory-solving 0x0 arith# ; #5180
[mk-app] #5184 = #5180 #5185
[instance] 0x0 #5184
[attach-enode] #5184 0
[end-of-instance]
[mk-app] #5184 not #5178
[mk-app] #5186 or #5184 #5185
[mk-app] #5187 => #5178 #5185
[inst-discovered] theory-solving 0x0 basic# ; #5187
[mk-app] #5188 = #5187 #5186
[instance] 0x0 #5188
[attach-enode] #5188 0
[end-of-instance]
[mk-quant] #5187 internal_vstd!seq.Seq.len.?_pre_post_definition 3 #5182 #5186
[attach-var-names] #5187 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5188 req%vstd!seq.Seq.index. #1593 #263 #32 #33
[mk-app] #5189 %%global_location_label%%0
[mk-app] #5190 vstd!seq.Seq.len.? #1593 #263 #32
[mk-app] #5191 < #186 #5190
[mk-app] #5192 and #512 #5191
[mk-app] #5193 => #5189 #5192
[mk-app] #5194 = #5188 #5193
[mk-app] #5195 pattern #5188
[mk-quant] #5196 internal_req__vstd!seq.Seq.index._definition 4 #5195 #5194
[attach-var-names] #5196 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #5197 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5197 = #512 #516
[instance] 0x0 #5197
[attach-enode] #5197 0
[end-of-instance]
[mk-app] #5197 <= #5190 #186
[mk-app] #5198 not #5197
[inst-discovered] theory-solving 0x0 arith# ; #5191
[mk-app] #5199 = #5191 #5198
[instance] 0x0 #5199
[attach-enode] #5199 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5199 * #365 #186
[mk-app] #5200 + #5199 #5190
[attach-meaning] #365 arith (- 1)
[mk-app] #5201 * #365 #5190
[mk-app] #5202 + #186 #5201
[mk-app] #5199 >= #5202 #336
[inst-discovered] theory-solving 0x0 arith# ; #5197
[mk-app] #5200 = #5197 #5199
[instance] 0x0 #5200
[attach-enode] #5200 0
[end-of-instance]
[mk-app] #5200 not #5199
[mk-app] #5203 and #516 #5200
[mk-app] #5204 not #5189
[mk-app] #5205 or #5204 #5203
[mk-app] #5206 => #5189 #5203
[inst-discovered] theory-solving 0x0 basic# ; #5206
[mk-app] #5207 = #5206 #5205
[instance] 0x0 #5207
[attach-enode] #5207 0
[end-of-instance]
[mk-app] #5206 = #5188 #5205
[mk-quant] #5207 internal_req__vstd!seq.Seq.index._definition 4 #5195 #5206
[attach-var-names] #5207 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5197 has_type #32 #3397
[mk-app] #5198 and #5197 #185
[mk-app] #5208 vstd!seq.Seq.index.? #1593 #263 #32 #33
[mk-app] #5209 has_type #5208 #263
[mk-app] #5210 => #5198 #5209
[mk-app] #5211 pattern #5208
[mk-quant] #5212 internal_vstd!seq.Seq.index.?_pre_post_definition 4 #5211 #5210
[attach-var-names] #5212 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5213 not #5198
[mk-app] #5214 or #5213 #5209
[inst-discovered] theory-solving 0x0 basic# ; #5210
[mk-app] #5215 = #5210 #5214
[instance] 0x0 #5215
[attach-enode] #5215 0
[end-of-instance]
[mk-quant] #5215 internal_vstd!seq.Seq.index.?_pre_post_definition 4 #5211 #5214
[attach-var-names] #5215 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5216 req%vstd!seq.impl&%2.spec_index. #1593 #263 #32 #33
[mk-app] #5217 %%global_location_label%%1
[mk-app] #5218 => #5217 #5192
[mk-app] #5219 = #5216 #5218
[mk-app] #5220 pattern #5216
[mk-quant] #5221 internal_req__vstd!seq.impl&__2.spec_index._definition 4 #5220 #5219
[attach-var-names] #5221 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #5222 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5222 = #512 #516
[instance] 0x0 #5222
[attach-enode] #5222 0
[end-of-instance]
[mk-app] #5222 <= #5190 #186
[mk-app] #5223 not #5222
[inst-discovered] theory-solving 0x0 arith# ; #5191
[mk-app] #5224 = #5191 #5223
[instance] 0x0 #5224
[attach-enode] #5224 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5224 * #365 #186
[mk-app] #5225 + #5224 #5190
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5222
[mk-app] #5224 = #5222 #5199
[instance] 0x0 #5224
[attach-enode] #5224 0
[end-of-instance]
[mk-app] #5224 not #5217
[mk-app] #5225 or #5224 #5203
[mk-app] #5226 => #5217 #5203
[inst-discovered] theory-solving 0x0 basic# ; #5226
[mk-app] #5227 = #5226 #5225
[instance] 0x0 #5227
[attach-enode] #5227 0
[end-of-instance]
[mk-app] #5226 = #5216 #5225
[mk-quant] #5227 internal_req__vstd!seq.impl&__2.spec_index._definition 4 #5220 #5226
[attach-var-names] #5227 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5222 fuel_bool_default #1240
[mk-app] #5223 fuel_bool #1240
[mk-app] #5228 vstd!seq.impl&%2.spec_index.? #1593 #263 #32 #33
[mk-app] #5229 = #5228 #5208
[mk-app] #5230 pattern #5228
[mk-quant] #5231 internal_vstd!seq.impl&__2.spec_index.?_definition 4 #5230 #5229
[attach-var-names] #5231 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5232 => #5223 #5231
[mk-app] #5233 not #5223
[mk-app] #5234 or #5233 #5231
[inst-discovered] theory-solving 0x0 basic# ; #5232
[mk-app] #5235 = #5232 #5234
[instance] 0x0 #5235
[attach-enode] #5235 0
[end-of-instance]
[mk-app] #5235 has_type #5228 #263
[mk-app] #5236 => #5198 #5235
[mk-quant] #5237 internal_vstd!seq.impl&__2.spec_index.?_pre_post_definition 4 #5230 #5236
[attach-var-names] #5237 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5238 or #5213 #5235
[inst-discovered] theory-solving 0x0 basic# ; #5236
[mk-app] #5239 = #5236 #5238
[instance] 0x0 #5239
[attach-enode] #5239 0
[end-of-instance]
[mk-quant] #5239 internal_vstd!seq.impl&__2.spec_index.?_pre_post_definition 4 #5230 #5238
[attach-var-names] #5239 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5240 fuel_bool #1241
[mk-app] #5241 and #2799 #5192
[mk-app] #5242 height #5208
[mk-app] #5243 height_lt #5242 #763
[mk-app] #5244 => #5241 #5243
[mk-app] #5245 => #5198 #5244
[mk-app] #5246 pattern #5242
[mk-quant] #5247 user_vstd__seq__lemma_seq_index_decreases_0 4 #5246 #5245
[attach-var-names] #5247 (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5248 => #5240 #5247
[attach-meaning] #365 arith (- 1)
[mk-app] #5249 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5249 = #512 #516
[instance] 0x0 #5249
[attach-enode] #5249 0
[end-of-instance]
[mk-app] #5249 <= #5190 #186
[mk-app] #5250 not #5249
[inst-discovered] theory-solving 0x0 arith# ; #5191
[mk-app] #5251 = #5191 #5250
[instance] 0x0 #5251
[attach-enode] #5251 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5251 * #365 #186
[mk-app] #5252 + #5251 #5190
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5249
[mk-app] #5251 = #5249 #5199
[instance] 0x0 #5251
[attach-enode] #5251 0
[end-of-instance]
[mk-app] #5251 and #2799 #516 #5200
[mk-app] #5252 and #2799 #5203
[inst-discovered] theory-solving 0x0 basic# ; #5252
[mk-app] #5253 = #5252 #5251
[instance] 0x0 #5253
[attach-enode] #5253 0
[end-of-instance]
[mk-app] #5252 not #5251
[mk-app] #5253 or #5252 #5243
[mk-app] #5254 => #5251 #5243
[inst-discovered] theory-solving 0x0 basic# ; #5254
[mk-app] #5255 = #5254 #5253
[instance] 0x0 #5255
[attach-enode] #5255 0
[end-of-instance]
[mk-app] #5254 or #5213 #5252 #5243
[mk-app] #5255 => #5198 #5253
[inst-discovered] theory-solving 0x0 basic# ; #5255
[mk-app] #5256 = #5255 #5254
[instance] 0x0 #5256
[attach-enode] #5256 0
[end-of-instance]
[mk-quant] #5253 user_vstd__seq__lemma_seq_index_decreases_0 4 #5246 #5254
[attach-var-names] #5253 (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5249 not #5240
[mk-app] #5250 or #5249 #5253
[mk-app] #5255 => #5240 #5253
[inst-discovered] theory-solving 0x0 basic# ; #5255
[mk-app] #5256 = #5255 #5250
[instance] 0x0 #5256
[attach-enode] #5256 0
[end-of-instance]
[mk-app] #5255 req%vstd!seq.Seq.subrange. #1560 #1561 #43 #32 #33
[mk-app] #5256 %%global_location_label%%2
[mk-app] #5257 vstd!seq.Seq.len.? #1560 #1561 #43
[mk-app] #5258 <= #676 #186
[mk-app] #5259 and #729 #5258
[mk-app] #5260 <= #186 #5257
[mk-app] #5261 and #5259 #5260
[mk-app] #5262 => #5256 #5261
[mk-app] #5263 = #5255 #5262
[mk-app] #5264 pattern #5255
[mk-quant] #5265 internal_req__vstd!seq.Seq.subrange._definition 5 #5264 #5263
[attach-var-names] #5265 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #5266 * #365 #676
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #5266 = #729 #738
[instance] 0x0 #5266
[attach-enode] #5266 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5266 * #365 #186
[mk-app] #5267 + #5266 #676
[attach-meaning] #365 arith (- 1)
[mk-app] #5268 * #365 #676
[mk-app] #5269 + #186 #5268
[mk-app] #5266 >= #5269 #336
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #5267 = #5258 #5266
[instance] 0x0 #5267
[attach-enode] #5267 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5267 * #365 #5257
[mk-app] #5270 + #186 #5267
[mk-app] #5271 <= #5270 #336
[inst-discovered] theory-solving 0x0 arith# ; #5260
[mk-app] #5272 = #5260 #5271
[instance] 0x0 #5272
[attach-enode] #5272 0
[end-of-instance]
[mk-app] #5272 and #738 #5266 #5271
[mk-app] #5273 not #5256
[mk-app] #5274 or #5273 #5272
[mk-app] #5275 => #5256 #5272
[inst-discovered] theory-solving 0x0 basic# ; #5275
[mk-app] #5276 = #5275 #5274
[instance] 0x0 #5276
[attach-enode] #5276 0
[end-of-instance]
[mk-app] #5275 = #5255 #5274
[mk-quant] #5276 internal_req__vstd!seq.Seq.subrange._definition 5 #5264 #5275
[attach-var-names] #5276 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5277 TYPE%vstd!seq.Seq. #1560 #1561
[mk-app] #5278 has_type #43 #5277
[mk-app] #5279 has_type #32 #184
[mk-app] #5280 and #5278 #5279 #185
[mk-app] #5281 vstd!seq.Seq.subrange.? #1560 #1561 #43 #32 #33
[mk-app] #5282 has_type #5281 #5277
[mk-app] #5283 => #5280 #5282
[mk-app] #5284 pattern #5281
[mk-quant] #5285 internal_vstd!seq.Seq.subrange.?_pre_post_definition 5 #5284 #5283
[attach-var-names] #5285 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5286 not #5280
[mk-app] #5287 or #5286 #5282
[inst-discovered] theory-solving 0x0 basic# ; #5283
[mk-app] #5288 = #5283 #5287
[instance] 0x0 #5288
[attach-enode] #5288 0
[end-of-instance]
[mk-quant] #5288 internal_vstd!seq.Seq.subrange.?_pre_post_definition 5 #5284 #5287
[attach-var-names] #5288 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5289 fuel_bool #1242
[mk-app] #5290 sized #1560
[mk-app] #5291 and #5290 #5261
[mk-app] #5292 vstd!seq.Seq.len.? #1560 #1561 #5281
[mk-app] #5293 < #5292 #5257
[mk-app] #5294 and #5291 #5293
[mk-app] #5295 height #5281
[mk-app] #5296 height_lt #5295 #762
[mk-app] #5297 => #5294 #5296
[mk-app] #5298 => #5280 #5297
[mk-app] #5299 pattern #5295
[mk-quant] #5300 user_vstd__seq__lemma_seq_subrange_decreases_0 5 #5299 #5298
[attach-var-names] #5300 (|j!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5301 => #5289 #5300
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #5302 = #729 #738
[instance] 0x0 #5302
[attach-enode] #5302 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5302 * #365 #186
[mk-app] #5303 + #5302 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #5302 = #5258 #5266
[instance] 0x0 #5302
[attach-enode] #5302 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5260
[mk-app] #5302 = #5260 #5271
[instance] 0x0 #5302
[attach-enode] #5302 0
[end-of-instance]
[mk-app] #5302 <= #5257 #5292
[mk-app] #5303 not #5302
[inst-discovered] theory-solving 0x0 arith# ; #5293
[mk-app] #5304 = #5293 #5303
[instance] 0x0 #5304
[attach-enode] #5304 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5304 * #365 #5292
[mk-app] #5305 + #5257 #5304
[mk-app] #5306 <= #5305 #336
[inst-discovered] theory-solving 0x0 arith# ; #5302
[mk-app] #5307 = #5302 #5306
[instance] 0x0 #5307
[attach-enode] #5307 0
[end-of-instance]
[mk-app] #5307 not #5306
[mk-app] #5308 and #5290 #738 #5266 #5271 #5307
[mk-app] #5309 and #5290 #5272 #5307
[inst-discovered] theory-solving 0x0 basic# ; #5309
[mk-app] #5310 = #5309 #5308
[instance] 0x0 #5310
[attach-enode] #5310 0
[end-of-instance]
[mk-app] #5309 not #5308
[mk-app] #5310 or #5309 #5296
[mk-app] #5311 => #5308 #5296
[inst-discovered] theory-solving 0x0 basic# ; #5311
[mk-app] #5312 = #5311 #5310
[instance] 0x0 #5312
[attach-enode] #5312 0
[end-of-instance]
[mk-app] #5311 or #5286 #5309 #5296
[mk-app] #5312 => #5280 #5310
[inst-discovered] theory-solving 0x0 basic# ; #5312
[mk-app] #5313 = #5312 #5311
[instance] 0x0 #5313
[attach-enode] #5313 0
[end-of-instance]
[mk-quant] #5310 user_vstd__seq__lemma_seq_subrange_decreases_0 5 #5299 #5311
[attach-var-names] #5310 (|j!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5302 not #5289
[mk-app] #5303 or #5302 #5310
[mk-app] #5312 => #5289 #5310
[inst-discovered] theory-solving 0x0 basic# ; #5312
[mk-app] #5313 = #5312 #5303
[instance] 0x0 #5313
[attach-enode] #5313 0
[end-of-instance]
[mk-app] #5312 vstd!seq.Seq.empty.? #44 #45
[mk-app] #5313 has_type #5312 #2784
[mk-app] #5314 pattern #5312
[mk-quant] #5315 internal_vstd!seq.Seq.empty.?_pre_post_definition 2 #5314 #5313
[attach-var-names] #5315 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5316 fuel_bool #1243
[mk-app] #5317 vstd!seq.Seq.len.? #44 #45 #5312
[mk-app] #5318 = #5317 #336
[mk-app] #5319 => #2788 #5318
[mk-app] #5320 pattern #5317
[mk-quant] #5321 user_vstd__seq__lemma_seq_empty_0 2 #5320 #5319
[attach-var-names] #5321 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5322 => #5316 #5321
[mk-app] #5323 or #3429 #5318
[inst-discovered] theory-solving 0x0 basic# ; #5319
[mk-app] #5324 = #5319 #5323
[instance] 0x0 #5324
[attach-enode] #5324 0
[end-of-instance]
[mk-quant] #5324 user_vstd__seq__lemma_seq_empty_0 2 #5320 #5323
[attach-var-names] #5324 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5325 not #5316
[mk-app] #5326 or #5325 #5324
[mk-app] #5327 => #5316 #5324
[inst-discovered] theory-solving 0x0 basic# ; #5327
[mk-app] #5328 = #5327 #5326
[instance] 0x0 #5328
[attach-enode] #5328 0
[end-of-instance]
[mk-app] #5327 has_type #32 #195
[mk-app] #5328 TYPE%fun%1. #120 #184 #1593 #263
[mk-app] #5329 has_type #33 #5328
[mk-app] #5330 and #5327 #5329
[mk-app] #5331 vstd!seq.Seq.new.? #1593 #263 #32 #33
[mk-app] #5332 has_type #5331 #3397
[mk-app] #5333 => #5330 #5332
[mk-app] #5334 pattern #5331
[mk-quant] #5335 internal_vstd!seq.Seq.new.?_pre_post_definition 4 #5334 #5333
[attach-var-names] #5335 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5336 not #5330
[mk-app] #5337 or #5336 #5332
[inst-discovered] theory-solving 0x0 basic# ; #5333
[mk-app] #5338 = #5333 #5337
[instance] 0x0 #5338
[attach-enode] #5338 0
[end-of-instance]
[mk-quant] #5338 internal_vstd!seq.Seq.new.?_pre_post_definition 4 #5334 #5337
[attach-var-names] #5338 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5339 fuel_bool #1244
[mk-app] #5340 vstd!seq.Seq.len.? #1593 #263 #5331
[mk-app] #5341 = #5340 #676
[mk-app] #5342 => #2799 #5341
[mk-app] #5343 => #5330 #5342
[mk-app] #5344 pattern #5340
[mk-quant] #5345 user_vstd__seq__lemma_seq_new_len_0 4 #5344 #5343
[attach-var-names] #5345 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5346 => #5339 #5345
[mk-app] #5347 not #2799
[mk-app] #5348 or #5347 #5341
[inst-discovered] theory-solving 0x0 basic# ; #5342
[mk-app] #5349 = #5342 #5348
[instance] 0x0 #5349
[attach-enode] #5349 0
[end-of-instance]
[mk-app] #5349 or #5336 #5347 #5341
[mk-app] #5350 => #5330 #5348
[inst-discovered] theory-solving 0x0 basic# ; #5350
[mk-app] #5351 = #5350 #5349
[instance] 0x0 #5351
[attach-enode] #5351 0
[end-of-instance]
[mk-quant] #5348 user_vstd__seq__lemma_seq_new_len_0 4 #5344 #5349
[attach-var-names] #5348 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5350 not #5339
[mk-app] #5351 or #5350 #5348
[mk-app] #5352 => #5339 #5348
[inst-discovered] theory-solving 0x0 basic# ; #5352
[mk-app] #5353 = #5352 #5351
[instance] 0x0 #5353
[attach-enode] #5353 0
[end-of-instance]
[mk-app] #5352 fuel_bool #1245
[mk-app] #5353 has_type #43 #195
[mk-app] #5354 TYPE%fun%1. #120 #184 #1560 #1561
[mk-app] #5355 has_type #32 #5354
[mk-app] #5356 and #5353 #5355 #185
[mk-app] #5357 < #186 #666
[mk-app] #5358 and #512 #5357
[mk-app] #5359 and #5290 #5358
[mk-app] #5360 vstd!seq.Seq.new.? #1560 #1561 #43 #32
[mk-app] #5361 vstd!seq.Seq.index.? #1560 #1561 #5360 #33
[mk-app] #5362 = #5361 #1626
[mk-app] #5363 => #5359 #5362
[mk-app] #5364 => #5356 #5363
[mk-app] #5365 pattern #5361
[mk-quant] #5366 user_vstd__seq__lemma_seq_new_index_0 5 #5365 #5364
[attach-var-names] #5366 (|i!| ; |Poly|) (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5367 => #5352 #5366
[attach-meaning] #365 arith (- 1)
[mk-app] #5368 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5368 = #512 #516
[instance] 0x0 #5368
[attach-enode] #5368 0
[end-of-instance]
[mk-app] #5368 <= #666 #186
[mk-app] #5369 not #5368
[inst-discovered] theory-solving 0x0 arith# ; #5357
[mk-app] #5370 = #5357 #5369
[instance] 0x0 #5370
[attach-enode] #5370 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5370 * #365 #186
[mk-app] #5371 + #5370 #666
[attach-meaning] #365 arith (- 1)
[mk-app] #5372 * #365 #666
[mk-app] #5373 + #186 #5372
[mk-app] #5370 >= #5373 #336
[inst-discovered] theory-solving 0x0 arith# ; #5368
[mk-app] #5371 = #5368 #5370
[instance] 0x0 #5371
[attach-enode] #5371 0
[end-of-instance]
[mk-app] #5371 not #5370
[mk-app] #5374 and #5290 #516 #5371
[mk-app] #5375 not #5374
[mk-app] #5376 or #5375 #5362
[mk-app] #5377 => #5374 #5362
[inst-discovered] theory-solving 0x0 basic# ; #5377
[mk-app] #5378 = #5377 #5376
[instance] 0x0 #5378
[attach-enode] #5378 0
[end-of-instance]
[mk-app] #5377 not #5356
[mk-app] #5378 or #5377 #5375 #5362
[mk-app] #5379 => #5356 #5376
[inst-discovered] theory-solving 0x0 basic# ; #5379
[mk-app] #5380 = #5379 #5378
[instance] 0x0 #5380
[attach-enode] #5380 0
[end-of-instance]
[mk-quant] #5376 user_vstd__seq__lemma_seq_new_index_0 5 #5365 #5378
[attach-var-names] #5376 (|i!| ; |Poly|) (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5368 not #5352
[mk-app] #5369 or #5368 #5376
[mk-app] #5379 => #5352 #5376
[inst-discovered] theory-solving 0x0 basic# ; #5379
[mk-app] #5380 = #5379 #5369
[instance] 0x0 #5380
[attach-enode] #5380 0
[end-of-instance]
[mk-app] #5379 and #5197 #2315
[mk-app] #5380 vstd!seq.Seq.push.? #1593 #263 #32 #33
[mk-app] #5381 has_type #5380 #3397
[mk-app] #5382 => #5379 #5381
[mk-app] #5383 pattern #5380
[mk-quant] #5384 internal_vstd!seq.Seq.push.?_pre_post_definition 4 #5383 #5382
[attach-var-names] #5384 (|a!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5385 not #5379
[mk-app] #5386 or #5385 #5381
[inst-discovered] theory-solving 0x0 basic# ; #5382
[mk-app] #5387 = #5382 #5386
[instance] 0x0 #5387
[attach-enode] #5387 0
[end-of-instance]
[mk-quant] #5387 internal_vstd!seq.Seq.push.?_pre_post_definition 4 #5383 #5386
[attach-var-names] #5387 (|a!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5388 fuel_bool #1246
[mk-app] #5389 vstd!seq.Seq.len.? #1593 #263 #5380
[mk-app] #5390 Add #5190 #291
[mk-app] #5391 nClip #5390
[mk-app] #5392 = #5389 #5391
[mk-app] #5393 => #2799 #5392
[mk-app] #5394 => #5379 #5393
[mk-app] #5395 pattern #5389
[mk-quant] #5396 user_vstd__seq__lemma_seq_push_len_0 4 #5395 #5394
[attach-var-names] #5396 (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5397 => #5388 #5396
[mk-app] #5398 or #5347 #5392
[inst-discovered] theory-solving 0x0 basic# ; #5393
[mk-app] #5399 = #5393 #5398
[instance] 0x0 #5399
[attach-enode] #5399 0
[end-of-instance]
[mk-app] #5399 or #5385 #5347 #5392
[mk-app] #5400 => #5379 #5398
[inst-discovered] theory-solving 0x0 basic# ; #5400
[mk-app] #5401 = #5400 #5399
[instance] 0x0 #5401
[attach-enode] #5401 0
[end-of-instance]
[mk-quant] #5398 user_vstd__seq__lemma_seq_push_len_0 4 #5395 #5399
[attach-var-names] #5398 (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5400 not #5388
[mk-app] #5401 or #5400 #5398
[mk-app] #5402 => #5388 #5398
[inst-discovered] theory-solving 0x0 basic# ; #5402
[mk-app] #5403 = #5402 #5401
[instance] 0x0 #5403
[attach-enode] #5403 0
[end-of-instance]
[mk-app] #5402 fuel_bool #1247
[mk-app] #5403 and #5278 #2383 #185
[mk-app] #5404 = #186 #5257
[mk-app] #5405 and #5290 #5404
[mk-app] #5406 vstd!seq.Seq.push.? #1560 #1561 #43 #32
[mk-app] #5407 vstd!seq.Seq.index.? #1560 #1561 #5406 #33
[mk-app] #5408 = #5407 #32
[mk-app] #5409 => #5405 #5408
[mk-app] #5410 => #5403 #5409
[mk-app] #5411 pattern #5407
[mk-quant] #5412 user_vstd__seq__lemma_seq_push_index_same_0 5 #5411 #5410
[attach-var-names] #5412 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5413 => #5402 #5412
[mk-app] #5414 not #5405
[mk-app] #5415 or #5414 #5408
[inst-discovered] theory-solving 0x0 basic# ; #5409
[mk-app] #5416 = #5409 #5415
[instance] 0x0 #5416
[attach-enode] #5416 0
[end-of-instance]
[mk-app] #5416 not #5403
[mk-app] #5417 or #5416 #5414 #5408
[mk-app] #5418 => #5403 #5415
[inst-discovered] theory-solving 0x0 basic# ; #5418
[mk-app] #5419 = #5418 #5417
[instance] 0x0 #5419
[attach-enode] #5419 0
[end-of-instance]
[mk-quant] #5415 user_vstd__seq__lemma_seq_push_index_same_0 5 #5411 #5417
[attach-var-names] #5415 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5418 not #5402
[mk-app] #5419 or #5418 #5415
[mk-app] #5420 => #5402 #5415
[inst-discovered] theory-solving 0x0 basic# ; #5420
[mk-app] #5421 = #5420 #5419
[instance] 0x0 #5421
[attach-enode] #5421 0
[end-of-instance]
[mk-app] #5420 fuel_bool #1248
[mk-app] #5421 < #186 #5257
[mk-app] #5422 and #5290 #5421
[mk-app] #5423 vstd!seq.Seq.index.? #1560 #1561 #43 #33
[mk-app] #5424 = #5407 #5423
[mk-app] #5425 => #5422 #5424
[mk-app] #5426 => #5403 #5425
[mk-quant] #5427 user_vstd__seq__lemma_seq_push_index_different_0 5 #5411 #5426
[attach-var-names] #5427 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5428 => #5420 #5427
[mk-app] #5429 <= #5257 #186
[mk-app] #5430 not #5429
[inst-discovered] theory-solving 0x0 arith# ; #5421
[mk-app] #5431 = #5421 #5430
[instance] 0x0 #5431
[attach-enode] #5431 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5431 * #365 #186
[mk-app] #5432 + #5431 #5257
[attach-meaning] #365 arith (- 1)
[mk-app] #5431 >= #5270 #336
[inst-discovered] theory-solving 0x0 arith# ; #5429
[mk-app] #5432 = #5429 #5431
[instance] 0x0 #5432
[attach-enode] #5432 0
[end-of-instance]
[mk-app] #5432 not #5431
[mk-app] #5433 and #5290 #5432
[mk-app] #5434 not #5433
[mk-app] #5435 or #5434 #5424
[mk-app] #5436 => #5433 #5424
[inst-discovered] theory-solving 0x0 basic# ; #5436
[mk-app] #5437 = #5436 #5435
[instance] 0x0 #5437
[attach-enode] #5437 0
[end-of-instance]
[mk-app] #5436 or #5416 #5434 #5424
[mk-app] #5437 => #5403 #5435
[inst-discovered] theory-solving 0x0 basic# ; #5437
[mk-app] #5438 = #5437 #5436
[instance] 0x0 #5438
[attach-enode] #5438 0
[end-of-instance]
[mk-quant] #5435 user_vstd__seq__lemma_seq_push_index_different_0 5 #5411 #5436
[attach-var-names] #5435 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5429 not #5420
[mk-app] #5430 or #5429 #5435
[mk-app] #5437 => #5420 #5435
[inst-discovered] theory-solving 0x0 basic# ; #5437
[mk-app] #5438 = #5437 #5430
[instance] 0x0 #5438
[attach-enode] #5438 0
[end-of-instance]
[mk-app] #5437 req%vstd!seq.Seq.update. #1560 #1561 #43 #32 #33
[mk-app] #5438 %%global_location_label%%3
[mk-app] #5439 < #676 #5257
[mk-app] #5440 and #729 #5439
[mk-app] #5441 => #5438 #5440
[mk-app] #5442 = #5437 #5441
[mk-app] #5443 pattern #5437
[mk-quant] #5444 internal_req__vstd!seq.Seq.update._definition 5 #5443 #5442
[attach-var-names] #5444 (|a!| ; |Poly|) (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #5445 = #729 #738
[instance] 0x0 #5445
[attach-enode] #5445 0
[end-of-instance]
[mk-app] #5445 <= #5257 #676
[mk-app] #5446 not #5445
[inst-discovered] theory-solving 0x0 arith# ; #5439
[mk-app] #5447 = #5439 #5446
[instance] 0x0 #5447
[attach-enode] #5447 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5447 + #5268 #5257
[attach-meaning] #365 arith (- 1)
[mk-app] #5448 + #676 #5267
[mk-app] #5447 >= #5448 #336
[inst-discovered] theory-solving 0x0 arith# ; #5445
[mk-app] #5449 = #5445 #5447
[instance] 0x0 #5449
[attach-enode] #5449 0
[end-of-instance]
[mk-app] #5449 not #5447
[mk-app] #5450 and #738 #5449
[mk-app] #5451 not #5438
[mk-app] #5452 or #5451 #5450
[mk-app] #5453 => #5438 #5450
[inst-discovered] theory-solving 0x0 basic# ; #5453
[mk-app] #5454 = #5453 #5452
[instance] 0x0 #5454
[attach-enode] #5454 0
[end-of-instance]
[mk-app] #5453 = #5437 #5452
[mk-quant] #5454 internal_req__vstd!seq.Seq.update._definition 5 #5443 #5453
[attach-var-names] #5454 (|a!| ; |Poly|) (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5445 has_type #33 #1561
[mk-app] #5446 and #5278 #5279 #5445
[mk-app] #5455 vstd!seq.Seq.update.? #1560 #1561 #43 #32 #33
[mk-app] #5456 has_type #5455 #5277
[mk-app] #5457 => #5446 #5456
[mk-app] #5458 pattern #5455
[mk-quant] #5459 internal_vstd!seq.Seq.update.?_pre_post_definition 5 #5458 #5457
[attach-var-names] #5459 (|a!| ; |Poly|) (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5460 not #5446
[mk-app] #5461 or #5460 #5456
[inst-discovered] theory-solving 0x0 basic# ; #5457
[mk-app] #5462 = #5457 #5461
[instance] 0x0 #5462
[attach-enode] #5462 0
[end-of-instance]
[mk-quant] #5462 internal_vstd!seq.Seq.update.?_pre_post_definition 5 #5458 #5461
[attach-var-names] #5462 (|a!| ; |Poly|) (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5463 fuel_bool #1249
[mk-app] #5464 vstd!seq.Seq.len.? #1560 #1561 #5455
[mk-app] #5465 = #5464 #5257
[mk-app] #5466 => #5290 #5465
[mk-app] #5467 => #5446 #5466
[mk-app] #5468 pattern #5464
[mk-quant] #5469 user_vstd__seq__lemma_seq_update_len_0 5 #5468 #5467
[attach-var-names] #5469 (|a!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5470 => #5463 #5469
[mk-app] #5471 not #5290
[mk-app] #5472 or #5471 #5465
[inst-discovered] theory-solving 0x0 basic# ; #5466
[mk-app] #5473 = #5466 #5472
[instance] 0x0 #5473
[attach-enode] #5473 0
[end-of-instance]
[mk-app] #5473 or #5460 #5471 #5465
[mk-app] #5474 => #5446 #5472
[inst-discovered] theory-solving 0x0 basic# ; #5474
[mk-app] #5475 = #5474 #5473
[instance] 0x0 #5475
[attach-enode] #5475 0
[end-of-instance]
[mk-quant] #5472 user_vstd__seq__lemma_seq_update_len_0 5 #5468 #5473
[attach-var-names] #5472 (|a!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5474 not #5463
[mk-app] #5475 or #5474 #5472
[mk-app] #5476 => #5463 #5472
[inst-discovered] theory-solving 0x0 basic# ; #5476
[mk-app] #5477 = #5476 #5475
[instance] 0x0 #5477
[attach-enode] #5477 0
[end-of-instance]
[mk-app] #5476 fuel_bool #1250
[mk-app] #5477 and #5290 #5440
[mk-app] #5478 vstd!seq.Seq.index.? #1560 #1561 #5455 #32
[mk-app] #5479 = #5478 #33
[mk-app] #5480 => #5477 #5479
[mk-app] #5481 => #5446 #5480
[mk-app] #5482 pattern #5478
[mk-quant] #5483 user_vstd__seq__lemma_seq_update_same_0 5 #5482 #5481
[attach-var-names] #5483 (|a!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5484 => #5476 #5483
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #5485 = #729 #738
[instance] 0x0 #5485
[attach-enode] #5485 0
[end-of-instance]
[mk-app] #5485 <= #5257 #676
[mk-app] #5486 not #5485
[inst-discovered] theory-solving 0x0 arith# ; #5439
[mk-app] #5487 = #5439 #5486
[instance] 0x0 #5487
[attach-enode] #5487 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5487 + #5268 #5257
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5485
[mk-app] #5487 = #5485 #5447
[instance] 0x0 #5487
[attach-enode] #5487 0
[end-of-instance]
[mk-app] #5487 and #5290 #738 #5449
[mk-app] #5488 and #5290 #5450
[inst-discovered] theory-solving 0x0 basic# ; #5488
[mk-app] #5489 = #5488 #5487
[instance] 0x0 #5489
[attach-enode] #5489 0
[end-of-instance]
[mk-app] #5488 not #5487
[mk-app] #5489 or #5488 #5479
[mk-app] #5490 => #5487 #5479
[inst-discovered] theory-solving 0x0 basic# ; #5490
[mk-app] #5491 = #5490 #5489
[instance] 0x0 #5491
[attach-enode] #5491 0
[end-of-instance]
[mk-app] #5490 or #5460 #5488 #5479
[mk-app] #5491 => #5446 #5489
[inst-discovered] theory-solving 0x0 basic# ; #5491
[mk-app] #5492 = #5491 #5490
[instance] 0x0 #5492
[attach-enode] #5492 0
[end-of-instance]
[mk-quant] #5489 user_vstd__seq__lemma_seq_update_same_0 5 #5482 #5490
[attach-var-names] #5489 (|a!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5485 not #5476
[mk-app] #5486 or #5485 #5489
[mk-app] #5491 => #5476 #5489
[inst-discovered] theory-solving 0x0 basic# ; #5491
[mk-app] #5492 = #5491 #5486
[instance] 0x0 #5492
[attach-enode] #5492 0
[end-of-instance]
[mk-app] #5491 fuel_bool #1251
[mk-app] #5492 TYPE%vstd!seq.Seq. #1592 #1573
[mk-app] #5493 has_type #63 #5492
[mk-app] #5494 has_type #43 #184
[mk-app] #5495 and #5493 #5494 #5279 #1574
[mk-app] #5496 = #43 #32
[mk-app] #5497 not #5496
[mk-app] #5498 and #2798 #5497
[mk-app] #5499 vstd!seq.Seq.update.? #1592 #1573 #63 #32 #33
[mk-app] #5500 vstd!seq.Seq.index.? #1592 #1573 #5499 #43
[mk-app] #5501 vstd!seq.Seq.index.? #1592 #1573 #63 #43
[mk-app] #5502 = #5500 #5501
[mk-app] #5503 => #5498 #5502
[mk-app] #5504 => #5495 #5503
[mk-app] #5505 pattern #5500
[mk-quant] #5506 user_vstd__seq__lemma_seq_update_different_0 6 #5505 #5504
[attach-var-names] #5506 (|a!| ; |Poly|) (|i2!| ; |Poly|) (|i1!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5507 => #5491 #5506
[mk-app] #5508 not #5498
[mk-app] #5509 or #5508 #5502
[inst-discovered] theory-solving 0x0 basic# ; #5503
[mk-app] #5510 = #5503 #5509
[instance] 0x0 #5510
[attach-enode] #5510 0
[end-of-instance]
[mk-app] #5510 not #5495
[mk-app] #5511 or #5510 #5508 #5502
[mk-app] #5512 => #5495 #5509
[inst-discovered] theory-solving 0x0 basic# ; #5512
[mk-app] #5513 = #5512 #5511
[instance] 0x0 #5513
[attach-enode] #5513 0
[end-of-instance]
[mk-quant] #5509 user_vstd__seq__lemma_seq_update_different_0 6 #5505 #5511
[attach-var-names] #5509 (|a!| ; |Poly|) (|i2!| ; |Poly|) (|i1!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5512 not #5491
[mk-app] #5513 or #5512 #5509
[mk-app] #5514 => #5491 #5509
[inst-discovered] theory-solving 0x0 basic# ; #5514
[mk-app] #5515 = #5514 #5513
[instance] 0x0 #5515
[attach-enode] #5515 0
[end-of-instance]
[mk-app] #5514 fuel_bool #1252
[mk-app] #5515 has_type #33 #3397
[mk-app] #5516 and #5197 #5515
[mk-app] #5517 ext_eq #2 #3397 #32 #33
[mk-app] #5518 vstd!seq.Seq.len.? #1593 #263 #33
[mk-app] #5519 = #5190 #5518
[mk-app] #5520 and #512 #5421
[mk-app] #5521 vstd!seq.Seq.index.? #1560 #1561 #32 #33
[mk-app] #5522 = #5423 #5521
[mk-app] #5523 => #5520 #5522
[mk-app] #5524 => #185 #5523
[mk-app] #5525 pattern #5423
[mk-app] #5526 pattern #5521
[mk-quant] #5527 user_vstd__seq__lemma_seq_ext_equal_0 1 #5525 #5526 #5524
[attach-var-names] #5527 (|i$| ; |Poly|)
[mk-app] #5528 and #5519 #5527
[mk-app] #5529 = #5517 #5528
[mk-app] #5530 => #2799 #5529
[mk-app] #5531 => #5516 #5530
[mk-app] #5532 pattern #5517
[mk-quant] #5533 user_vstd__seq__lemma_seq_ext_equal_1 4 #5532 #5531
[attach-var-names] #5533 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5534 => #5514 #5533
[attach-meaning] #365 arith (- 1)
[mk-app] #5535 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5535 = #512 #516
[instance] 0x0 #5535
[attach-enode] #5535 0
[end-of-instance]
[mk-app] #5535 <= #5257 #186
[mk-app] #5536 not #5535
[inst-discovered] theory-solving 0x0 arith# ; #5421
[mk-app] #5537 = #5421 #5536
[instance] 0x0 #5537
[attach-enode] #5537 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5537 * #365 #186
[mk-app] #5538 + #5537 #5257
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5535
[mk-app] #5537 = #5535 #5431
[instance] 0x0 #5537
[attach-enode] #5537 0
[end-of-instance]
[mk-app] #5537 and #516 #5432
[mk-app] #5538 not #5537
[mk-app] #5539 or #5538 #5522
[mk-app] #5540 => #5537 #5522
[inst-discovered] theory-solving 0x0 basic# ; #5540
[mk-app] #5541 = #5540 #5539
[instance] 0x0 #5541
[attach-enode] #5541 0
[end-of-instance]
[mk-app] #5540 or #192 #5538 #5522
[mk-app] #5541 => #185 #5539
[inst-discovered] theory-solving 0x0 basic# ; #5541
[mk-app] #5542 = #5541 #5540
[instance] 0x0 #5542
[attach-enode] #5542 0
[end-of-instance]
[mk-quant] #5539 user_vstd__seq__lemma_seq_ext_equal_0 1 #5525 #5526 #5540
[attach-var-names] #5539 (|i$| ; |Poly|)
[mk-app] #5535 and #5519 #5539
[mk-app] #5536 = #5517 #5535
[mk-app] #5541 or #5347 #5536
[mk-app] #5542 => #2799 #5536
[inst-discovered] theory-solving 0x0 basic# ; #5542
[mk-app] #5543 = #5542 #5541
[instance] 0x0 #5543
[attach-enode] #5543 0
[end-of-instance]
[mk-app] #5542 not #5516
[mk-app] #5543 or #5542 #5347 #5536
[mk-app] #5544 => #5516 #5541
[inst-discovered] theory-solving 0x0 basic# ; #5544
[mk-app] #5545 = #5544 #5543
[instance] 0x0 #5545
[attach-enode] #5545 0
[end-of-instance]
[mk-quant] #5541 user_vstd__seq__lemma_seq_ext_equal_1 4 #5532 #5543
[attach-var-names] #5541 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5544 not #5514
[mk-app] #5545 or #5544 #5541
[mk-app] #5546 => #5514 #5541
[inst-discovered] theory-solving 0x0 basic# ; #5546
[mk-app] #5547 = #5546 #5545
[instance] 0x0 #5547
[attach-enode] #5547 0
[end-of-instance]
[mk-app] #5546 fuel_bool #1253
[mk-app] #5547 ext_eq #1 #3397 #32 #33
[mk-app] #5548 ext_eq #1 #1561 #5423 #5521
[mk-app] #5549 => #5520 #5548
[mk-app] #5550 => #185 #5549
[mk-quant] #5551 user_vstd__seq__lemma_seq_ext_equal_deep_0 1 #5525 #5526 #5550
[attach-var-names] #5551 (|i$| ; |Poly|)
[mk-app] #5552 and #5519 #5551
[mk-app] #5553 = #5547 #5552
[mk-app] #5554 => #2799 #5553
[mk-app] #5555 => #5516 #5554
[mk-app] #5556 pattern #5547
[mk-quant] #5557 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #5556 #5555
[attach-var-names] #5557 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5558 => #5546 #5557
[attach-meaning] #365 arith (- 1)
[mk-app] #5559 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5559 = #512 #516
[instance] 0x0 #5559
[attach-enode] #5559 0
[end-of-instance]
[mk-app] #5559 <= #5257 #186
[mk-app] #5560 not #5559
[inst-discovered] theory-solving 0x0 arith# ; #5421
[mk-app] #5561 = #5421 #5560
[instance] 0x0 #5561
[attach-enode] #5561 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5561 * #365 #186
[mk-app] #5562 + #5561 #5257
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5559
[mk-app] #5561 = #5559 #5431
[instance] 0x0 #5561
[attach-enode] #5561 0
[end-of-instance]
[mk-app] #5561 or #5538 #5548
[mk-app] #5562 => #5537 #5548
[inst-discovered] theory-solving 0x0 basic# ; #5562
[mk-app] #5563 = #5562 #5561
[instance] 0x0 #5563
[attach-enode] #5563 0
[end-of-instance]
[mk-app] #5562 or #192 #5538 #5548
[mk-app] #5563 => #185 #5561
[inst-discovered] theory-solving 0x0 basic# ; #5563
[mk-app] #5564 = #5563 #5562
[instance] 0x0 #5564
[attach-enode] #5564 0
[end-of-instance]
[mk-quant] #5561 user_vstd__seq__lemma_seq_ext_equal_deep_0 1 #5525 #5526 #5562
[attach-var-names] #5561 (|i$| ; |Poly|)
[mk-app] #5559 and #5519 #5561
[mk-app] #5560 = #5547 #5559
[mk-app] #5563 or #5347 #5560
[mk-app] #5564 => #2799 #5560
[inst-discovered] theory-solving 0x0 basic# ; #5564
[mk-app] #5565 = #5564 #5563
[instance] 0x0 #5565
[attach-enode] #5565 0
[end-of-instance]
[mk-app] #5564 or #5542 #5347 #5560
[mk-app] #5565 => #5516 #5563
[inst-discovered] theory-solving 0x0 basic# ; #5565
[mk-app] #5566 = #5565 #5564
[instance] 0x0 #5566
[attach-enode] #5566 0
[end-of-instance]
[mk-quant] #5563 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #5556 #5564
[attach-var-names] #5563 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5565 not #5546
[mk-app] #5566 or #5565 #5563
[mk-app] #5567 => #5546 #5563
[inst-discovered] theory-solving 0x0 basic# ; #5567
[mk-app] #5568 = #5567 #5566
[instance] 0x0 #5568
[attach-enode] #5568 0
[end-of-instance]
[mk-app] #5567 fuel_bool #1254
[mk-app] #5568 Sub #186 #676
[mk-app] #5569 = #5292 #5568
[mk-app] #5570 => #5291 #5569
[mk-app] #5571 => #5280 #5570
[mk-app] #5572 pattern #5292
[mk-quant] #5573 user_vstd__seq__lemma_seq_subrange_len_0 5 #5572 #5571
[attach-var-names] #5573 (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5574 => #5567 #5573
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #5575 = #729 #738
[instance] 0x0 #5575
[attach-enode] #5575 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5575 * #365 #186
[mk-app] #5576 + #5575 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #5575 = #5258 #5266
[instance] 0x0 #5575
[attach-enode] #5575 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5260
[mk-app] #5575 = #5260 #5271
[instance] 0x0 #5575
[attach-enode] #5575 0
[end-of-instance]
[mk-app] #5575 and #5290 #738 #5266 #5271
[mk-app] #5576 and #5290 #5272
[inst-discovered] theory-solving 0x0 basic# ; #5576
[mk-app] #5577 = #5576 #5575
[instance] 0x0 #5577
[attach-enode] #5577 0
[end-of-instance]
[mk-app] #5576 not #5575
[mk-app] #5577 or #5576 #5569
[mk-app] #5578 => #5575 #5569
[inst-discovered] theory-solving 0x0 basic# ; #5578
[mk-app] #5579 = #5578 #5577
[instance] 0x0 #5579
[attach-enode] #5579 0
[end-of-instance]
[mk-app] #5578 or #5286 #5576 #5569
[mk-app] #5579 => #5280 #5577
[inst-discovered] theory-solving 0x0 basic# ; #5579
[mk-app] #5580 = #5579 #5578
[instance] 0x0 #5580
[attach-enode] #5580 0
[end-of-instance]
[mk-quant] #5577 user_vstd__seq__lemma_seq_subrange_len_0 5 #5572 #5578
[attach-var-names] #5577 (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5579 not #5567
[mk-app] #5580 or #5579 #5577
[mk-app] #5581 => #5567 #5577
[inst-discovered] theory-solving 0x0 basic# ; #5581
[mk-app] #5582 = #5581 #5580
[instance] 0x0 #5582
[attach-enode] #5582 0
[end-of-instance]
[mk-app] #5581 fuel_bool #1255
[mk-app] #5582 and #5493 #5494 #5279 #185
[mk-app] #5583 vstd!seq.Seq.len.? #1592 #1573 #63
[mk-app] #5584 <= #336 #666
[mk-app] #5585 <= #666 #676
[mk-app] #5586 and #5584 #5585
[mk-app] #5587 <= #676 #5583
[mk-app] #5588 and #5586 #5587
[mk-app] #5589 and #2798 #5588
[mk-app] #5590 Sub #676 #666
[mk-app] #5591 < #186 #5590
[mk-app] #5592 and #512 #5591
[mk-app] #5593 and #5589 #5592
[mk-app] #5594 vstd!seq.Seq.subrange.? #1592 #1573 #63 #43 #32
[mk-app] #5595 vstd!seq.Seq.index.? #1592 #1573 #5594 #33
[mk-app] #5596 Add #186 #666
[mk-app] #5597 I #5596
[mk-app] #5598 vstd!seq.Seq.index.? #1592 #1573 #63 #5597
[mk-app] #5599 = #5595 #5598
[mk-app] #5600 => #5593 #5599
[mk-app] #5601 => #5582 #5600
[mk-app] #5602 pattern #5595
[mk-quant] #5603 user_vstd__seq__lemma_seq_subrange_index_0 6 #5602 #5601
[attach-var-names] #5603 (|i!| ; |Poly|) (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5604 => #5581 #5603
[attach-meaning] #365 arith (- 1)
[mk-app] #5605 >= #666 #336
[inst-discovered] theory-solving 0x0 arith# ; #5584
[mk-app] #5606 = #5584 #5605
[instance] 0x0 #5606
[attach-enode] #5606 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5606 + #666 #5268
[mk-app] #5607 <= #5606 #336
[inst-discovered] theory-solving 0x0 arith# ; #5585
[mk-app] #5608 = #5585 #5607
[instance] 0x0 #5608
[attach-enode] #5608 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5608 * #365 #5583
[mk-app] #5609 + #676 #5608
[mk-app] #5610 <= #5609 #336
[inst-discovered] theory-solving 0x0 arith# ; #5587
[mk-app] #5611 = #5587 #5610
[instance] 0x0 #5611
[attach-enode] #5611 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5611 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5611 = #512 #516
[instance] 0x0 #5611
[attach-enode] #5611 0
[end-of-instance]
[mk-app] #5611 <= #5590 #186
[mk-app] #5612 not #5611
[inst-discovered] theory-solving 0x0 arith# ; #5591
[mk-app] #5613 = #5591 #5612
[instance] 0x0 #5613
[attach-enode] #5613 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5613 * #365 #186
[mk-app] #5614 + #5613 #5590
[attach-meaning] #365 arith (- 1)
[mk-app] #5615 * #365 #5590
[mk-app] #5616 + #186 #5615
[mk-app] #5613 >= #5616 #336
[inst-discovered] theory-solving 0x0 arith# ; #5611
[mk-app] #5614 = #5611 #5613
[instance] 0x0 #5614
[attach-enode] #5614 0
[end-of-instance]
[mk-app] #5614 not #5613
[mk-app] #5617 and #2798 #5605 #5607 #5610 #516 #5614
[mk-app] #5618 not #5617
[mk-app] #5619 or #5618 #5599
[mk-app] #5620 => #5617 #5599
[inst-discovered] theory-solving 0x0 basic# ; #5620
[mk-app] #5621 = #5620 #5619
[instance] 0x0 #5621
[attach-enode] #5621 0
[end-of-instance]
[mk-app] #5620 not #5582
[mk-app] #5621 or #5620 #5618 #5599
[mk-app] #5622 => #5582 #5619
[inst-discovered] theory-solving 0x0 basic# ; #5622
[mk-app] #5623 = #5622 #5621
[instance] 0x0 #5623
[attach-enode] #5623 0
[end-of-instance]
[mk-quant] #5619 user_vstd__seq__lemma_seq_subrange_index_0 6 #5602 #5621
[attach-var-names] #5619 (|i!| ; |Poly|) (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5611 not #5581
[mk-app] #5612 or #5611 #5619
[mk-app] #5622 => #5581 #5619
[inst-discovered] theory-solving 0x0 basic# ; #5622
[mk-app] #5623 = #5622 #5612
[instance] 0x0 #5623
[attach-enode] #5623 0
[end-of-instance]
[mk-app] #5622 fuel_bool #1256
[mk-var] #5623 4
[mk-app] #5624 TYPE%vstd!seq.Seq. #1615 #1616
[mk-app] #5625 has_type #5623 #5624
[mk-app] #5626 has_type #63 #184
[mk-app] #5627 and #5625 #5626 #5494 #5279 #185
[mk-app] #5628 sized #1615
[mk-app] #5629 %I #63
[mk-app] #5630 vstd!seq.Seq.len.? #1615 #1616 #5623
[mk-app] #5631 <= #336 #5629
[mk-app] #5632 <= #5629 #666
[mk-app] #5633 and #5631 #5632
[mk-app] #5634 <= #666 #5630
[mk-app] #5635 and #5633 #5634
[mk-app] #5636 and #5628 #5635
[mk-app] #5637 <= #5629 #676
[mk-app] #5638 and #5631 #5637
[mk-app] #5639 <= #676 #5630
[mk-app] #5640 and #5638 #5639
[mk-app] #5641 and #5636 #5640
[mk-app] #5642 Sub #666 #5629
[mk-app] #5643 < #186 #5642
[mk-app] #5644 and #512 #5643
[mk-app] #5645 and #5641 #5644
[mk-app] #5646 Sub #676 #5629
[mk-app] #5647 < #186 #5646
[mk-app] #5648 and #512 #5647
[mk-app] #5649 and #5645 #5648
[mk-app] #5650 vstd!seq.Seq.subrange.? #1615 #1616 #5623 #63 #43
[mk-app] #5651 vstd!seq.Seq.index.? #1615 #1616 #5650 #33
[mk-app] #5652 vstd!seq.Seq.subrange.? #1615 #1616 #5623 #63 #32
[mk-app] #5653 vstd!seq.Seq.index.? #1615 #1616 #5652 #33
[mk-app] #5654 = #5651 #5653
[mk-app] #5655 => #5649 #5654
[mk-app] #5656 => #5627 #5655
[mk-app] #5657 pattern #5651 #5652
[mk-quant] #5658 user_vstd__seq__lemma_seq_two_subranges_index_0 7 #5657 #5656
[attach-var-names] #5658 (|i!| ; |Poly|) (|k2!| ; |Poly|) (|k1!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5659 => #5622 #5658
[attach-meaning] #365 arith (- 1)
[mk-app] #5660 * #365 #5629
[mk-app] #5661 >= #5629 #336
[inst-discovered] theory-solving 0x0 arith# ; #5631
[mk-app] #5660 = #5631 #5661
[instance] 0x0 #5660
[attach-enode] #5660 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5660 + #5372 #5629
[attach-meaning] #365 arith (- 1)
[mk-app] #5662 * #365 #5629
[mk-app] #5663 + #666 #5662
[mk-app] #5660 >= #5663 #336
[inst-discovered] theory-solving 0x0 arith# ; #5632
[mk-app] #5664 = #5632 #5660
[instance] 0x0 #5664
[attach-enode] #5664 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5664 * #365 #5630
[mk-app] #5665 + #666 #5664
[mk-app] #5666 <= #5665 #336
[inst-discovered] theory-solving 0x0 arith# ; #5634
[mk-app] #5667 = #5634 #5666
[instance] 0x0 #5667
[attach-enode] #5667 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5667 + #5268 #5629
[attach-meaning] #365 arith (- 1)
[mk-app] #5668 + #676 #5662
[mk-app] #5667 >= #5668 #336
[inst-discovered] theory-solving 0x0 arith# ; #5637
[mk-app] #5669 = #5637 #5667
[instance] 0x0 #5669
[attach-enode] #5669 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5669 + #676 #5664
[mk-app] #5670 <= #5669 #336
[inst-discovered] theory-solving 0x0 arith# ; #5639
[mk-app] #5671 = #5639 #5670
[instance] 0x0 #5671
[attach-enode] #5671 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5671 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5671 = #512 #516
[instance] 0x0 #5671
[attach-enode] #5671 0
[end-of-instance]
[mk-app] #5671 <= #5642 #186
[mk-app] #5672 not #5671
[inst-discovered] theory-solving 0x0 arith# ; #5643
[mk-app] #5673 = #5643 #5672
[instance] 0x0 #5673
[attach-enode] #5673 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5673 * #365 #186
[mk-app] #5674 + #5673 #5642
[attach-meaning] #365 arith (- 1)
[mk-app] #5675 * #365 #5642
[mk-app] #5676 + #186 #5675
[mk-app] #5673 >= #5676 #336
[inst-discovered] theory-solving 0x0 arith# ; #5671
[mk-app] #5674 = #5671 #5673
[instance] 0x0 #5674
[attach-enode] #5674 0
[end-of-instance]
[mk-app] #5674 not #5673
[mk-app] #5677 <= #5646 #186
[mk-app] #5678 not #5677
[inst-discovered] theory-solving 0x0 arith# ; #5647
[mk-app] #5679 = #5647 #5678
[instance] 0x0 #5679
[attach-enode] #5679 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5679 * #365 #186
[mk-app] #5680 + #5679 #5646
[attach-meaning] #365 arith (- 1)
[mk-app] #5681 * #365 #5646
[mk-app] #5682 + #186 #5681
[mk-app] #5679 >= #5682 #336
[inst-discovered] theory-solving 0x0 arith# ; #5677
[mk-app] #5680 = #5677 #5679
[instance] 0x0 #5680
[attach-enode] #5680 0
[end-of-instance]
[mk-app] #5680 not #5679
[mk-app] #5683 and #5628 #5661 #5660 #5666 #5667 #5670 #516 #5674 #5680
[mk-app] #5684 and #5628 #5661 #5660 #5666 #5661 #5667 #5670 #516 #5674 #516 #5680
[inst-discovered] theory-solving 0x0 basic# ; #5684
[mk-app] #5685 = #5684 #5683
[instance] 0x0 #5685
[attach-enode] #5685 0
[end-of-instance]
[mk-app] #5684 not #5683
[mk-app] #5685 or #5684 #5654
[mk-app] #5686 => #5683 #5654
[inst-discovered] theory-solving 0x0 basic# ; #5686
[mk-app] #5687 = #5686 #5685
[instance] 0x0 #5687
[attach-enode] #5687 0
[end-of-instance]
[mk-app] #5686 not #5627
[mk-app] #5687 or #5686 #5684 #5654
[mk-app] #5688 => #5627 #5685
[inst-discovered] theory-solving 0x0 basic# ; #5688
[mk-app] #5689 = #5688 #5687
[instance] 0x0 #5689
[attach-enode] #5689 0
[end-of-instance]
[mk-quant] #5685 user_vstd__seq__lemma_seq_two_subranges_index_0 7 #5657 #5687
[attach-var-names] #5685 (|i!| ; |Poly|) (|k2!| ; |Poly|) (|k1!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5677 not #5622
[mk-app] #5678 or #5677 #5685
[mk-app] #5671 => #5622 #5685
[inst-discovered] theory-solving 0x0 basic# ; #5671
[mk-app] #5672 = #5671 #5678
[instance] 0x0 #5672
[attach-enode] #5672 0
[end-of-instance]
[mk-app] #5671 tr_bound%core!ops.function.FnOnce. #120 #46 #1593 #263
[mk-app] #5672 => #4624 #5671
[mk-app] #5688 pattern #5671
[mk-quant] #5689 internal_core__ops__function__impls__impl&__4_trait_impl_definition 4 #5688 #5672
[attach-var-names] #5689 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5690 or #4630 #5671
[inst-discovered] theory-solving 0x0 basic# ; #5672
[mk-app] #5691 = #5672 #5690
[instance] 0x0 #5691
[attach-enode] #5691 0
[end-of-instance]
[mk-quant] #5691 internal_core__ops__function__impls__impl&__4_trait_impl_definition 4 #5688 #5690
[attach-var-names] #5691 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5692 fuel_bool #1233
[mk-app] #5693 has_type #32 #4816
[mk-app] #5694 and #5693 #1574
[mk-app] #5695 and #2798 #2799
[mk-app] #5696 and #5695 #4640
[mk-app] #5697 tr_bound%core!ops.function.FnMut. #1593 #263 #1592 #1573
[mk-app] #5698 and #5696 #5697
[mk-app] #5699 mut_ref_current% #32
[mk-app] #5700 closure_req #263 #1592 #1573 #5699 #33
[mk-app] #5701 and #5698 #5700
[mk-app] #5702 closure_req #4816 #1592 #1573 #32 #33
[mk-app] #5703 => #5701 #5702
[mk-app] #5704 => #5694 #5703
[mk-app] #5705 pattern #5702
[mk-quant] #5706 user_vstd__function__axiom_fn_mut_call_requires_0 6 #5705 #5704
[attach-var-names] #5706 (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #5707 => #5692 #5706
[mk-app] #5708 and #2798 #2799 #4640 #5697 #5700
[mk-app] #5709 not #5708
[mk-app] #5710 or #5709 #5702
[mk-app] #5711 => #5708 #5702
[inst-discovered] theory-solving 0x0 basic# ; #5711
[mk-app] #5712 = #5711 #5710
[instance] 0x0 #5712
[attach-enode] #5712 0
[end-of-instance]
[mk-app] #5711 not #5694
[mk-app] #5712 or #5711 #5709 #5702
[mk-app] #5713 => #5694 #5710
[inst-discovered] theory-solving 0x0 basic# ; #5713
[mk-app] #5714 = #5713 #5712
[instance] 0x0 #5714
[attach-enode] #5714 0
[end-of-instance]
[mk-quant] #5710 user_vstd__function__axiom_fn_mut_call_requires_0 6 #5705 #5712
[attach-var-names] #5710 (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #5713 not #5692
[mk-app] #5714 or #5713 #5710
[mk-app] #5715 => #5692 #5710
[inst-discovered] theory-solving 0x0 basic# ; #5715
[mk-app] #5716 = #5715 #5714
[instance] 0x0 #5716
[attach-enode] #5716 0
[end-of-instance]
[mk-app] #5715 fuel_bool #1234
[mk-app] #5716 MUTREF #1560 #1561
[mk-app] #5717 has_type #43 #5716
[mk-app] #5718 has_type #32 #1616
[mk-app] #5719 proj%core!ops.function.FnOnce./Output #1560 #1561 #1615 #1616
[mk-app] #5720 has_type #33 #5719
[mk-app] #5721 and #5717 #5718 #5720
[mk-app] #5722 and #5628 #5290
[mk-app] #5723 tr_bound%core!marker.Tuple. #1615 #1616
[mk-app] #5724 and #5722 #5723
[mk-app] #5725 tr_bound%core!ops.function.FnMut. #1560 #1561 #1615 #1616
[mk-app] #5726 and #5724 #5725
[mk-app] #5727 closure_ens #5716 #1615 #1616 #43 #32 #33
[mk-app] #5728 and #5726 #5727
[mk-app] #5729 closure_ens #1561 #1615 #1616 #48 #32 #33
[mk-app] #5730 = #48 #56
[mk-app] #5731 and #5729 #5730
[mk-app] #5732 => #5728 #5731
[mk-app] #5733 => #5721 #5732
[mk-app] #5734 pattern #5727
[mk-quant] #5735 user_vstd__function__axiom_fn_mut_call_ensures_0 7 #5734 #5733
[attach-var-names] #5735 (|output!| ; |Poly|) (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #5736 => #5715 #5735
[mk-app] #5737 and #5628 #5290 #5723 #5725 #5727
[mk-app] #5738 not #5737
[mk-app] #5739 or #5738 #5731
[mk-app] #5740 => #5737 #5731
[inst-discovered] theory-solving 0x0 basic# ; #5740
[mk-app] #5741 = #5740 #5739
[instance] 0x0 #5741
[attach-enode] #5741 0
[end-of-instance]
[mk-app] #5740 not #5721
[mk-app] #5741 or #5740 #5738 #5731
[mk-app] #5742 => #5721 #5739
[inst-discovered] theory-solving 0x0 basic# ; #5742
[mk-app] #5743 = #5742 #5741
[instance] 0x0 #5743
[attach-enode] #5743 0
[end-of-instance]
[mk-quant] #5739 user_vstd__function__axiom_fn_mut_call_ensures_0 7 #5734 #5741
[attach-var-names] #5739 (|output!| ; |Poly|) (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #5742 not #5715
[mk-app] #5743 or #5742 #5739
[mk-app] #5744 => #5715 #5739
[inst-discovered] theory-solving 0x0 basic# ; #5744
[mk-app] #5745 = #5744 #5743
[instance] 0x0 #5745
[attach-enode] #5745 0
[end-of-instance]
[mk-app] #5744 SLICE #64 #65
[mk-app] #5745 has_type #33 #5744
[mk-app] #5746 vstd!slice.spec_slice_len.? #64 #65 #33
[mk-app] #5747 uInv #269 #5746
[mk-app] #5748 => #5745 #5747
[mk-app] #5749 pattern #5746
[mk-quant] #5750 internal_vstd!slice.spec_slice_len.?_pre_post_definition 3 #5749 #5748
[attach-var-names] #5750 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5751 not #5745
[mk-app] #5752 or #5751 #5747
[inst-discovered] theory-solving 0x0 basic# ; #5748
[mk-app] #5753 = #5748 #5752
[instance] 0x0 #5753
[attach-enode] #5753 0
[end-of-instance]
[mk-quant] #5753 internal_vstd!slice.spec_slice_len.?_pre_post_definition 3 #5749 #5752
[attach-var-names] #5753 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5754 vstd!view.View.view.? #64 #65 #33
[mk-app] #5755 proj%vstd!view.View./V #64 #65
[mk-app] #5756 has_type #5754 #5755
[mk-app] #5757 => #68 #5756
[mk-app] #5758 pattern #5754
[mk-quant] #5759 internal_vstd!view.View.view.?_pre_post_definition 3 #5758 #5757
[attach-var-names] #5759 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5760 or #2139 #5756
[inst-discovered] theory-solving 0x0 basic# ; #5757
[mk-app] #5761 = #5757 #5760
[instance] 0x0 #5761
[attach-enode] #5761 0
[end-of-instance]
[mk-quant] #5761 internal_vstd!view.View.view.?_pre_post_definition 3 #5758 #5760
[attach-var-names] #5761 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5762 tr_bound%vstd!view.View. #1542 #3423
[mk-app] #5763 => #2788 #5762
[mk-app] #5764 pattern #5762
[mk-quant] #5765 internal_vstd__slice__impl&__0_trait_impl_definition 2 #5764 #5763
[attach-var-names] #5765 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5766 or #3429 #5762
[inst-discovered] theory-solving 0x0 basic# ; #5763
[mk-app] #5767 = #5763 #5766
[instance] 0x0 #5767
[attach-enode] #5767 0
[end-of-instance]
[mk-quant] #5767 internal_vstd__slice__impl&__0_trait_impl_definition 2 #5764 #5766
[attach-var-names] #5767 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5768 fuel_bool #1262
[mk-app] #5769 sized #64
[mk-app] #5770 vstd!view.View.view.? #1542 #5744 #33
[mk-app] #5771 vstd!seq.Seq.len.? #64 #65 #5770
[mk-app] #5772 = #5746 #5771
[mk-app] #5773 => #5769 #5772
[mk-app] #5774 => #5745 #5773
[mk-quant] #5775 user_vstd__slice__axiom_spec_len_0 3 #5749 #5774
[attach-var-names] #5775 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5776 => #5768 #5775
[mk-app] #5777 not #5769
[mk-app] #5778 or #5777 #5772
[inst-discovered] theory-solving 0x0 basic# ; #5773
[mk-app] #5779 = #5773 #5778
[instance] 0x0 #5779
[attach-enode] #5779 0
[end-of-instance]
[mk-app] #5779 or #5751 #5777 #5772
[mk-app] #5780 => #5745 #5778
[inst-discovered] theory-solving 0x0 basic# ; #5780
[mk-app] #5781 = #5780 #5779
[instance] 0x0 #5781
[attach-enode] #5781 0
[end-of-instance]
[mk-quant] #5778 user_vstd__slice__axiom_spec_len_0 3 #5749 #5779
[attach-var-names] #5778 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5780 not #5768
[mk-app] #5781 or #5780 #5778
[mk-app] #5782 => #5768 #5778
[inst-discovered] theory-solving 0x0 basic# ; #5782
[mk-app] #5783 = #5782 #5781
[instance] 0x0 #5783
[attach-enode] #5783 0
[end-of-instance]
[mk-app] #5782 fuel_bool_default #1263
[mk-app] #5783 fuel_bool #1263
[mk-app] #5784 vstd!slice.len%returns_clause_autospec.? #64 #65 #33
[mk-app] #5785 = #5784 #5746
[mk-app] #5786 pattern #5784
[mk-quant] #5787 internal_vstd!slice.len__returns_clause_autospec.?_definition 3 #5786 #5785
[attach-var-names] #5787 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5788 => #5783 #5787
[mk-app] #5789 not #5783
[mk-app] #5790 or #5789 #5787
[inst-discovered] theory-solving 0x0 basic# ; #5788
[mk-app] #5791 = #5788 #5790
[instance] 0x0 #5791
[attach-enode] #5791 0
[end-of-instance]
[mk-app] #5791 uInv #269 #5784
[mk-app] #5792 => #5745 #5791
[mk-quant] #5793 internal_vstd!slice.len__returns_clause_autospec.?_pre_post_definition 3 #5786 #5792
[attach-var-names] #5793 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5794 or #5751 #5791
[inst-discovered] theory-solving 0x0 basic# ; #5792
[mk-app] #5795 = #5792 #5794
[instance] 0x0 #5795
[attach-enode] #5795 0
[end-of-instance]
[mk-quant] #5795 internal_vstd!slice.len__returns_clause_autospec.?_pre_post_definition 3 #5786 #5794
[attach-var-names] #5795 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5796 req%vstd!slice.SliceAdditionalSpecFns.spec_index. #1592 #1573 #1593 #263 #32 #33
[mk-app] #5797 %%global_location_label%%4
[mk-app] #5798 vstd!view.View.view.? #1592 #1573 #32
[mk-app] #5799 vstd!seq.Seq.len.? #1593 #263 #5798
[mk-app] #5800 < #186 #5799
[mk-app] #5801 and #512 #5800
[mk-app] #5802 => #5797 #5801
[mk-app] #5803 = #5796 #5802
[mk-app] #5804 pattern #5796
[mk-quant] #5805 internal_req__vstd!slice.SliceAdditionalSpecFns.spec_index._definition 6 #5804 #5803
[attach-var-names] #5805 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #5806 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5806 = #512 #516
[instance] 0x0 #5806
[attach-enode] #5806 0
[end-of-instance]
[mk-app] #5806 <= #5799 #186
[mk-app] #5807 not #5806
[inst-discovered] theory-solving 0x0 arith# ; #5800
[mk-app] #5808 = #5800 #5807
[instance] 0x0 #5808
[attach-enode] #5808 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5808 * #365 #186
[mk-app] #5809 + #5808 #5799
[attach-meaning] #365 arith (- 1)
[mk-app] #5810 * #365 #5799
[mk-app] #5811 + #186 #5810
[mk-app] #5808 >= #5811 #336
[inst-discovered] theory-solving 0x0 arith# ; #5806
[mk-app] #5809 = #5806 #5808
[instance] 0x0 #5809
[attach-enode] #5809 0
[end-of-instance]
[mk-app] #5809 not #5808
[mk-app] #5812 and #516 #5809
[mk-app] #5813 not #5797
[mk-app] #5814 or #5813 #5812
[mk-app] #5815 => #5797 #5812
[inst-discovered] theory-solving 0x0 basic# ; #5815
[mk-app] #5816 = #5815 #5814
[instance] 0x0 #5816
[attach-enode] #5816 0
[end-of-instance]
[mk-app] #5815 = #5796 #5814
[mk-quant] #5816 internal_req__vstd!slice.SliceAdditionalSpecFns.spec_index._definition 6 #5804 #5815
[attach-var-names] #5816 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5806 and #1596 #185
[mk-app] #5807 vstd!slice.SliceAdditionalSpecFns.spec_index.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #5817 has_type #5807 #263
[mk-app] #5818 => #5806 #5817
[mk-app] #5819 pattern #5807
[mk-quant] #5820 internal_vstd!slice.SliceAdditionalSpecFns.spec_index.?_pre_post_definition 6 #5819 #5818
[attach-var-names] #5820 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5821 not #5806
[mk-app] #5822 or #5821 #5817
[inst-discovered] theory-solving 0x0 basic# ; #5818
[mk-app] #5823 = #5818 #5822
[instance] 0x0 #5823
[attach-enode] #5823 0
[end-of-instance]
[mk-quant] #5823 internal_vstd!slice.SliceAdditionalSpecFns.spec_index.?_pre_post_definition 6 #5819 #5822
[attach-var-names] #5823 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5824 fuel_bool_default #1261
[mk-app] #5825 fuel_bool #1261
[mk-app] #5826 vstd!slice.SliceAdditionalSpecFns.spec_index.? #1542 #4750 #1593 #263 #32 #33
[mk-app] #5827 vstd!view.View.view.? #1542 #4750 #32
[mk-app] #5828 vstd!seq.Seq.index.? #1593 #263 #5827 #33
[mk-app] #5829 = #5826 #5828
[mk-app] #5830 => #2799 #5829
[mk-app] #5831 pattern #5826
[mk-quant] #5832 internal_vstd!slice.impl&__2.spec_index.?_definition 4 #5831 #5830
[attach-var-names] #5832 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5833 => #5825 #5832
[mk-app] #5834 or #5347 #5829
[inst-discovered] theory-solving 0x0 basic# ; #5830
[mk-app] #5835 = #5830 #5834
[instance] 0x0 #5835
[attach-enode] #5835 0
[end-of-instance]
[mk-quant] #5835 internal_vstd!slice.impl&__2.spec_index.?_definition 4 #5831 #5834
[attach-var-names] #5835 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5836 not #5825
[mk-app] #5837 or #5836 #5835
[mk-app] #5838 => #5825 #5835
[inst-discovered] theory-solving 0x0 basic# ; #5838
[mk-app] #5839 = #5838 #5837
[instance] 0x0 #5839
[attach-enode] #5839 0
[end-of-instance]
[mk-app] #5838 tr_bound%vstd!slice.SliceAdditionalSpecFns. #1542 #3423 #44 #45
[mk-app] #5839 => #2788 #5838
[mk-app] #5840 pattern #5838
[mk-quant] #5841 internal_vstd__slice__impl&__2_trait_impl_definition 2 #5840 #5839
[attach-var-names] #5841 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5842 or #3429 #5838
[inst-discovered] theory-solving 0x0 basic# ; #5839
[mk-app] #5843 = #5839 #5842
[instance] 0x0 #5843
[attach-enode] #5843 0
[end-of-instance]
[mk-quant] #5843 internal_vstd__slice__impl&__2_trait_impl_definition 2 #5840 #5842
[attach-var-names] #5843 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5844 fuel_bool #1264
[mk-app] #5845 has_type #32 #4750
[mk-app] #5846 has_type #33 #4750
[mk-app] #5847 and #5845 #5846
[mk-app] #5848 ext_eq #2 #4750 #32 #33
[mk-app] #5849 vstd!slice.len%returns_clause_autospec.? #1593 #263 #32
[mk-app] #5850 vstd!slice.len%returns_clause_autospec.? #1593 #263 #33
[mk-app] #5851 = #5849 #5850
[mk-app] #5852 vstd!slice.len%returns_clause_autospec.? #1560 #1561 #43
[mk-app] #5853 < #186 #5852
[mk-app] #5854 and #512 #5853
[mk-app] #5855 SLICE #1560 #1561
[mk-app] #5856 vstd!view.View.view.? #1542 #5855 #43
[mk-app] #5857 vstd!seq.Seq.index.? #1560 #1561 #5856 #33
[mk-app] #5858 vstd!view.View.view.? #1542 #5855 #32
[mk-app] #5859 vstd!seq.Seq.index.? #1560 #1561 #5858 #33
[mk-app] #5860 = #5857 #5859
[mk-app] #5861 => #5854 #5860
[mk-app] #5862 => #185 #5861
[mk-app] #5863 pattern #5857
[mk-app] #5864 pattern #5859
[mk-quant] #5865 user_vstd__slice__axiom_slice_ext_equal_0 1 #5863 #5864 #5862
[attach-var-names] #5865 (|i$| ; |Poly|)
[mk-app] #5866 and #5851 #5865
[mk-app] #5867 = #5848 #5866
[mk-app] #5868 => #2799 #5867
[mk-app] #5869 => #5847 #5868
[mk-app] #5870 pattern #5848
[mk-quant] #5871 user_vstd__slice__axiom_slice_ext_equal_1 4 #5870 #5869
[attach-var-names] #5871 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5872 => #5844 #5871
[attach-meaning] #365 arith (- 1)
[mk-app] #5873 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5873 = #512 #516
[instance] 0x0 #5873
[attach-enode] #5873 0
[end-of-instance]
[mk-app] #5873 <= #5852 #186
[mk-app] #5874 not #5873
[inst-discovered] theory-solving 0x0 arith# ; #5853
[mk-app] #5875 = #5853 #5874
[instance] 0x0 #5875
[attach-enode] #5875 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5875 * #365 #186
[mk-app] #5876 + #5875 #5852
[attach-meaning] #365 arith (- 1)
[mk-app] #5877 * #365 #5852
[mk-app] #5878 + #186 #5877
[mk-app] #5875 >= #5878 #336
[inst-discovered] theory-solving 0x0 arith# ; #5873
[mk-app] #5876 = #5873 #5875
[instance] 0x0 #5876
[attach-enode] #5876 0
[end-of-instance]
[mk-app] #5876 not #5875
[mk-app] #5879 and #516 #5876
[mk-app] #5880 not #5879
[mk-app] #5881 or #5880 #5860
[mk-app] #5882 => #5879 #5860
[inst-discovered] theory-solving 0x0 basic# ; #5882
[mk-app] #5883 = #5882 #5881
[instance] 0x0 #5883
[attach-enode] #5883 0
[end-of-instance]
[mk-app] #5882 or #192 #5880 #5860
[mk-app] #5883 => #185 #5881
[inst-discovered] theory-solving 0x0 basic# ; #5883
[mk-app] #5884 = #5883 #5882
[instance] 0x0 #5884
[attach-enode] #5884 0
[end-of-instance]
[mk-quant] #5881 user_vstd__slice__axiom_slice_ext_equal_0 1 #5863 #5864 #5882
[attach-var-names] #5881 (|i$| ; |Poly|)
[mk-app] #5873 and #5851 #5881
[mk-app] #5874 = #5848 #5873
[mk-app] #5883 or #5347 #5874
[mk-app] #5884 => #2799 #5874
[inst-discovered] theory-solving 0x0 basic# ; #5884
[mk-app] #5885 = #5884 #5883
[instance] 0x0 #5885
[attach-enode] #5885 0
[end-of-instance]
[mk-app] #5884 not #5847
[mk-app] #5885 or #5884 #5347 #5874
[mk-app] #5886 => #5847 #5883
[inst-discovered] theory-solving 0x0 basic# ; #5886
[mk-app] #5887 = #5886 #5885
[instance] 0x0 #5887
[attach-enode] #5887 0
[end-of-instance]
[mk-quant] #5883 user_vstd__slice__axiom_slice_ext_equal_1 4 #5870 #5885
[attach-var-names] #5883 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5886 not #5844
[mk-app] #5887 or #5886 #5883
[mk-app] #5888 => #5844 #5883
[inst-discovered] theory-solving 0x0 basic# ; #5888
[mk-app] #5889 = #5888 #5887
[instance] 0x0 #5889
[attach-enode] #5889 0
[end-of-instance]
[mk-app] #5888 has_type #43 #5855
[mk-app] #5889 and #5888 #5279 #5445
[mk-app] #5890 vstd!slice.spec_slice_update.? #1560 #1561 #43 #32 #33
[mk-app] #5891 has_type #5890 #5855
[mk-app] #5892 => #5889 #5891
[mk-app] #5893 pattern #5890
[mk-quant] #5894 internal_vstd!slice.spec_slice_update.?_pre_post_definition 5 #5893 #5892
[attach-var-names] #5894 (|t!| ; |Poly|) (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5895 not #5889
[mk-app] #5896 or #5895 #5891
[inst-discovered] theory-solving 0x0 basic# ; #5892
[mk-app] #5897 = #5892 #5896
[instance] 0x0 #5897
[attach-enode] #5897 0
[end-of-instance]
[mk-quant] #5897 internal_vstd!slice.spec_slice_update.?_pre_post_definition 5 #5893 #5896
[attach-var-names] #5897 (|t!| ; |Poly|) (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5898 fuel_bool #1265
[mk-app] #5899 vstd!slice.spec_slice_len.? #1560 #1561 #43
[mk-app] #5900 < #676 #5899
[mk-app] #5901 and #729 #5900
[mk-app] #5902 vstd!view.View.view.? #1542 #5855 #5890
[mk-app] #5903 vstd!seq.Seq.update.? #1560 #1561 #5856 #32 #33
[mk-app] #5904 = #5902 #5903
[mk-app] #5905 => #5901 #5904
[mk-app] #5906 => #5290 #5905
[mk-app] #5907 => #5889 #5906
[mk-app] #5908 pattern #5902
[mk-quant] #5909 user_vstd__slice__axiom_spec_slice_update_0 5 #5908 #5907
[attach-var-names] #5909 (|t!| ; |Poly|) (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5910 => #5898 #5909
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #5911 = #729 #738
[instance] 0x0 #5911
[attach-enode] #5911 0
[end-of-instance]
[mk-app] #5911 <= #5899 #676
[mk-app] #5912 not #5911
[inst-discovered] theory-solving 0x0 arith# ; #5900
[mk-app] #5913 = #5900 #5912
[instance] 0x0 #5913
[attach-enode] #5913 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5913 + #5268 #5899
[attach-meaning] #365 arith (- 1)
[mk-app] #5914 * #365 #5899
[mk-app] #5915 + #676 #5914
[mk-app] #5913 >= #5915 #336
[inst-discovered] theory-solving 0x0 arith# ; #5911
[mk-app] #5916 = #5911 #5913
[instance] 0x0 #5916
[attach-enode] #5916 0
[end-of-instance]
[mk-app] #5916 not #5913
[mk-app] #5917 and #738 #5916
[mk-app] #5918 not #5917
[mk-app] #5919 or #5918 #5904
[mk-app] #5920 => #5917 #5904
[inst-discovered] theory-solving 0x0 basic# ; #5920
[mk-app] #5921 = #5920 #5919
[instance] 0x0 #5921
[attach-enode] #5921 0
[end-of-instance]
[mk-app] #5920 or #5471 #5918 #5904
[mk-app] #5921 => #5290 #5919
[inst-discovered] theory-solving 0x0 basic# ; #5921
[mk-app] #5922 = #5921 #5920
[instance] 0x0 #5922
[attach-enode] #5922 0
[end-of-instance]
[mk-app] #5919 or #5895 #5471 #5918 #5904
[mk-app] #5921 => #5889 #5920
[inst-discovered] theory-solving 0x0 basic# ; #5921
[mk-app] #5922 = #5921 #5919
[instance] 0x0 #5922
[attach-enode] #5922 0
[end-of-instance]
[mk-quant] #5920 user_vstd__slice__axiom_spec_slice_update_0 5 #5908 #5919
[attach-var-names] #5920 (|t!| ; |Poly|) (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5911 not #5898
[mk-app] #5912 or #5911 #5920
[mk-app] #5921 => #5898 #5920
[inst-discovered] theory-solving 0x0 basic# ; #5921
[mk-app] #5922 = #5921 #5912
[instance] 0x0 #5922
[attach-enode] #5922 0
[end-of-instance]
[mk-app] #5921 and #5845 #185
[mk-app] #5922 vstd!slice.spec_slice_index.? #1593 #263 #32 #33
[mk-app] #5923 has_type #5922 #263
[mk-app] #5924 => #5921 #5923
[mk-app] #5925 pattern #5922
[mk-quant] #5926 internal_vstd!slice.spec_slice_index.?_pre_post_definition 4 #5925 #5924
[attach-var-names] #5926 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5927 not #5921
[mk-app] #5928 or #5927 #5923
[inst-discovered] theory-solving 0x0 basic# ; #5924
[mk-app] #5929 = #5924 #5928
[instance] 0x0 #5929
[attach-enode] #5929 0
[end-of-instance]
[mk-quant] #5929 internal_vstd!slice.spec_slice_index.?_pre_post_definition 4 #5925 #5928
[attach-var-names] #5929 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5930 fuel_bool #1266
[mk-app] #5931 vstd!slice.spec_slice_len.? #1593 #263 #32
[mk-app] #5932 < #186 #5931
[mk-app] #5933 and #512 #5932
[mk-app] #5934 = #5922 #5828
[mk-app] #5935 => #5933 #5934
[mk-app] #5936 => #2799 #5935
[mk-app] #5937 => #5921 #5936
[mk-quant] #5938 user_vstd__slice__axiom_spec_slice_index_0 4 #5925 #5937
[attach-var-names] #5938 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5939 => #5930 #5938
[attach-meaning] #365 arith (- 1)
[mk-app] #5940 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5940 = #512 #516
[instance] 0x0 #5940
[attach-enode] #5940 0
[end-of-instance]
[mk-app] #5940 <= #5931 #186
[mk-app] #5941 not #5940
[inst-discovered] theory-solving 0x0 arith# ; #5932
[mk-app] #5942 = #5932 #5941
[instance] 0x0 #5942
[attach-enode] #5942 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5942 * #365 #186
[mk-app] #5943 + #5942 #5931
[attach-meaning] #365 arith (- 1)
[mk-app] #5944 * #365 #5931
[mk-app] #5945 + #186 #5944
[mk-app] #5942 >= #5945 #336
[inst-discovered] theory-solving 0x0 arith# ; #5940
[mk-app] #5943 = #5940 #5942
[instance] 0x0 #5943
[attach-enode] #5943 0
[end-of-instance]
[mk-app] #5943 not #5942
[mk-app] #5946 and #516 #5943
[mk-app] #5947 not #5946
[mk-app] #5948 or #5947 #5934
[mk-app] #5949 => #5946 #5934
[inst-discovered] theory-solving 0x0 basic# ; #5949
[mk-app] #5950 = #5949 #5948
[instance] 0x0 #5950
[attach-enode] #5950 0
[end-of-instance]
[mk-app] #5949 or #5347 #5947 #5934
[mk-app] #5950 => #2799 #5948
[inst-discovered] theory-solving 0x0 basic# ; #5950
[mk-app] #5951 = #5950 #5949
[instance] 0x0 #5951
[attach-enode] #5951 0
[end-of-instance]
[mk-app] #5948 or #5927 #5347 #5947 #5934
[mk-app] #5950 => #5921 #5949
[inst-discovered] theory-solving 0x0 basic# ; #5950
[mk-app] #5951 = #5950 #5948
[instance] 0x0 #5951
[attach-enode] #5951 0
[end-of-instance]
[mk-quant] #5949 user_vstd__slice__axiom_spec_slice_index_0 4 #5925 #5948
[attach-var-names] #5949 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5940 not #5930
[mk-app] #5941 or #5940 #5949
[mk-app] #5950 => #5930 #5949
[inst-discovered] theory-solving 0x0 basic# ; #5950
[mk-app] #5951 = #5950 #5941
[instance] 0x0 #5951
[attach-enode] #5951 0
[end-of-instance]
[mk-app] #5950 fuel_bool #1267
[mk-app] #5951 has_resolved #1542 #4750 #32
[mk-app] #5952 has_resolved #1593 #263 #5828
[mk-app] #5953 => #5951 #5952
[mk-app] #5954 => #5933 #5953
[mk-app] #5955 => #2799 #5954
[mk-app] #5956 => #5921 #5955
[mk-app] #5957 pattern #5951 #5828
[mk-quant] #5958 user_vstd__slice__axiom_slice_has_resolved_0 4 #5957 #5956
[attach-var-names] #5958 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5959 => #5950 #5958
[attach-meaning] #365 arith (- 1)
[mk-app] #5960 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5960 = #512 #516
[instance] 0x0 #5960
[attach-enode] #5960 0
[end-of-instance]
[mk-app] #5960 <= #5931 #186
[mk-app] #5961 not #5960
[inst-discovered] theory-solving 0x0 arith# ; #5932
[mk-app] #5962 = #5932 #5961
[instance] 0x0 #5962
[attach-enode] #5962 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5962 * #365 #186
[mk-app] #5963 + #5962 #5931
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5960
[mk-app] #5962 = #5960 #5942
[instance] 0x0 #5962
[attach-enode] #5962 0
[end-of-instance]
[mk-app] #5962 not #5951
[mk-app] #5963 or #5962 #5952
[inst-discovered] theory-solving 0x0 basic# ; #5953
[mk-app] #5964 = #5953 #5963
[instance] 0x0 #5964
[attach-enode] #5964 0
[end-of-instance]
[mk-app] #5964 or #5947 #5962 #5952
[mk-app] #5965 => #5946 #5963
[inst-discovered] theory-solving 0x0 basic# ; #5965
[mk-app] #5966 = #5965 #5964
[instance] 0x0 #5966
[attach-enode] #5966 0
[end-of-instance]
[mk-app] #5963 or #5347 #5947 #5962 #5952
[mk-app] #5965 => #2799 #5964
[inst-discovered] theory-solving 0x0 basic# ; #5965
[mk-app] #5966 = #5965 #5963
[instance] 0x0 #5966
[attach-enode] #5966 0
[end-of-instance]
[mk-app] #5964 or #5927 #5347 #5947 #5962 #5952
[mk-app] #5965 => #5921 #5963
[inst-discovered] theory-solving 0x0 basic# ; #5965
[mk-app] #5966 = #5965 #5964
[instance] 0x0 #5966
[attach-enode] #5966 0
[end-of-instance]
[mk-quant] #5963 user_vstd__slice__axiom_slice_has_resolved_0 4 #5957 #5964
[attach-var-names] #5963 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5960 not #5950
[mk-app] #5961 or #5960 #5963
[mk-app] #5965 => #5950 #5963
[inst-discovered] theory-solving 0x0 basic# ; #5965
[mk-app] #5966 = #5965 #5961
[instance] 0x0 #5966
[attach-enode] #5966 0
[end-of-instance]
[mk-app] #5965 fuel_bool #1268
[mk-app] #5966 height #5770
[mk-app] #5967 height #33
[mk-app] #5968 height_lt #5966 #5967
[mk-app] #5969 => #5769 #5968
[mk-app] #5970 => #5745 #5969
[mk-app] #5971 pattern #5966
[mk-quant] #5972 user_vstd__slice__axiom_slice_decreases_to_seq_0 3 #5971 #5970
[attach-var-names] #5972 (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5973 => #5965 #5972
[mk-app] #5974 or #5777 #5968
[inst-discovered] theory-solving 0x0 basic# ; #5969
[mk-app] #5975 = #5969 #5974
[instance] 0x0 #5975
[attach-enode] #5975 0
[end-of-instance]
[mk-app] #5975 or #5751 #5777 #5968
[mk-app] #5976 => #5745 #5974
[inst-discovered] theory-solving 0x0 basic# ; #5976
[mk-app] #5977 = #5976 #5975
[instance] 0x0 #5977
[attach-enode] #5977 0
[end-of-instance]
[mk-quant] #5974 user_vstd__slice__axiom_slice_decreases_to_seq_0 3 #5971 #5975
[attach-var-names] #5974 (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5976 not #5965
[mk-app] #5977 or #5976 #5974
[mk-app] #5978 => #5965 #5974
[inst-discovered] theory-solving 0x0 basic# ; #5978
[mk-app] #5979 = #5978 #5977
[instance] 0x0 #5979
[attach-enode] #5979 0
[end-of-instance]
[mk-app] #5978 fuel_bool #1269
[mk-app] #5979 vstd!seq.Seq.len.? #1593 #263 #5827
[mk-app] #5980 < #186 #5979
[mk-app] #5981 and #512 #5980
[mk-app] #5982 and #2799 #5981
[mk-app] #5983 height #5828
[mk-app] #5984 height_lt #5983 #763
[mk-app] #5985 => #5982 #5984
[mk-app] #5986 => #5921 #5985
[mk-app] #5987 pattern #5983
[mk-quant] #5988 user_vstd__slice__lemma_slice_index_decreases_0 4 #5987 #5986
[attach-var-names] #5988 (|i!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5989 => #5978 #5988
[attach-meaning] #365 arith (- 1)
[mk-app] #5990 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #5990 = #512 #516
[instance] 0x0 #5990
[attach-enode] #5990 0
[end-of-instance]
[mk-app] #5990 <= #5979 #186
[mk-app] #5991 not #5990
[inst-discovered] theory-solving 0x0 arith# ; #5980
[mk-app] #5992 = #5980 #5991
[instance] 0x0 #5992
[attach-enode] #5992 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #5992 * #365 #186
[mk-app] #5993 + #5992 #5979
[attach-meaning] #365 arith (- 1)
[mk-app] #5994 * #365 #5979
[mk-app] #5995 + #186 #5994
[mk-app] #5992 >= #5995 #336
[inst-discovered] theory-solving 0x0 arith# ; #5990
[mk-app] #5993 = #5990 #5992
[instance] 0x0 #5993
[attach-enode] #5993 0
[end-of-instance]
[mk-app] #5993 not #5992
[mk-app] #5996 and #2799 #516 #5993
[mk-app] #5997 not #5996
[mk-app] #5998 or #5997 #5984
[mk-app] #5999 => #5996 #5984
[inst-discovered] theory-solving 0x0 basic# ; #5999
[mk-app] #6000 = #5999 #5998
[instance] 0x0 #6000
[attach-enode] #6000 0
[end-of-instance]
[mk-app] #5999 or #5927 #5997 #5984
[mk-app] #6000 => #5921 #5998
[inst-discovered] theory-solving 0x0 basic# ; #6000
[mk-app] #6001 = #6000 #5999
[instance] 0x0 #6001
[attach-enode] #6001 0
[end-of-instance]
[mk-quant] #5998 user_vstd__slice__lemma_slice_index_decreases_0 4 #5987 #5999
[attach-var-names] #5998 (|i!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5990 not #5978
[mk-app] #5991 or #5990 #5998
[mk-app] #6000 => #5978 #5998
[inst-discovered] theory-solving 0x0 basic# ; #6000
[mk-app] #6001 = #6000 #5991
[instance] 0x0 #6001
[attach-enode] #6001 0
[end-of-instance]
[mk-app] #6000 fuel_bool_default #1224
[mk-app] #6001 %%lambda%%0 #1592 #1573 #1593 #263 #1575
[mk-app] #6002 %%apply%%0 #6001 #33
[mk-app] #6003 array_index #1592 #1573 #1593 #263 #1575 #33
[mk-app] #6004 = #6002 #6003
[mk-app] #6005 pattern #6002
[mk-quant] #6006 k!9764 6 #6005 #6004
[attach-var-names] #6006 (|i$| ; |Poly|) (|%%hole%%4| ; |%%Function%%|) (|%%hole%%3| ; |Type|) (|%%hole%%2| ; |Dcr|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #6007 fuel_bool #1224
[mk-app] #6008 vstd!array.array_view.? #1560 #1561 #64 #65 #33
[mk-app] #6009 const_int #65
[mk-app] #6010 I #6009
[mk-app] #6011 %%lambda%%0 #1560 #1561 #64 #65 #1650
[mk-app] #6012 mk_fun #6011
[mk-app] #6013 Poly%fun%1. #6012
[mk-app] #6014 vstd!seq.Seq.new.? #1560 #1561 #6010 #6013
[mk-app] #6015 = #6008 #6014
[mk-app] #6016 pattern #6008
[mk-quant] #6017 internal_vstd!array.array_view.?_definition 5 #6016 #6015
[attach-var-names] #6017 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6018 => #6007 #6017
[mk-app] #6019 not #6007
[mk-app] #6020 or #6019 #6017
[inst-discovered] theory-solving 0x0 basic# ; #6018
[mk-app] #6021 = #6018 #6020
[instance] 0x0 #6021
[attach-enode] #6021 0
[end-of-instance]
[mk-app] #6021 has_type #6008 #5277
[mk-app] #6022 => #1649 #6021
[mk-quant] #6023 internal_vstd!array.array_view.?_pre_post_definition 5 #6016 #6022
[attach-var-names] #6023 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6024 or #1656 #6021
[inst-discovered] theory-solving 0x0 basic# ; #6022
[mk-app] #6025 = #6022 #6024
[instance] 0x0 #6025
[attach-enode] #6025 0
[end-of-instance]
[mk-quant] #6025 internal_vstd!array.array_view.?_pre_post_definition 5 #6016 #6024
[attach-var-names] #6025 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6026 fuel_bool_default #1225
[mk-app] #6027 fuel_bool #1225
[mk-app] #6028 uInv #269 #6009
[mk-app] #6029 and #5290 #6028
[mk-app] #6030 vstd!view.View.view.? #120 #1648 #33
[mk-app] #6031 = #6030 #6008
[mk-app] #6032 => #6029 #6031
[mk-app] #6033 pattern #6030
[mk-quant] #6034 internal_vstd!array.impl&__0.view.?_definition 5 #6033 #6032
[attach-var-names] #6034 (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6035 => #6027 #6034
[mk-app] #6036 not #6029
[mk-app] #6037 or #6036 #6031
[inst-discovered] theory-solving 0x0 basic# ; #6032
[mk-app] #6038 = #6032 #6037
[instance] 0x0 #6038
[attach-enode] #6038 0
[end-of-instance]
[mk-quant] #6038 internal_vstd!array.impl&__0.view.?_definition 5 #6033 #6037
[attach-var-names] #6038 (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6039 not #6027
[mk-app] #6040 or #6039 #6038
[mk-app] #6041 => #6027 #6038
[inst-discovered] theory-solving 0x0 basic# ; #6041
[mk-app] #6042 = #6041 #6040
[instance] 0x0 #6042
[attach-enode] #6042 0
[end-of-instance]
[mk-app] #6041 tr_bound%vstd!view.View. #120 #3387
[mk-app] #6042 => #3386 #6041
[mk-app] #6043 pattern #6041
[mk-quant] #6044 internal_vstd__array__impl&__0_trait_impl_definition 4 #6043 #6042
[attach-var-names] #6044 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6045 or #3393 #6041
[inst-discovered] theory-solving 0x0 basic# ; #6042
[mk-app] #6046 = #6042 #6045
[instance] 0x0 #6046
[attach-enode] #6046 0
[end-of-instance]
[mk-quant] #6046 internal_vstd__array__impl&__0_trait_impl_definition 4 #6043 #6045
[attach-var-names] #6046 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6047 fuel_bool #1228
[mk-app] #6048 vstd!seq.Seq.len.? #1560 #1561 #6030
[mk-app] #6049 = #6048 #6009
[mk-app] #6050 => #6029 #6049
[mk-app] #6051 => #1649 #6050
[mk-app] #6052 pattern #6048
[mk-quant] #6053 user_vstd__array__array_len_matches_n_0 5 #6052 #6051
[attach-var-names] #6053 (|ar!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6054 => #6047 #6053
[mk-app] #6055 or #6036 #6049
[inst-discovered] theory-solving 0x0 basic# ; #6050
[mk-app] #6056 = #6050 #6055
[instance] 0x0 #6056
[attach-enode] #6056 0
[end-of-instance]
[mk-app] #6056 or #1656 #6036 #6049
[mk-app] #6057 => #1649 #6055
[inst-discovered] theory-solving 0x0 basic# ; #6057
[mk-app] #6058 = #6057 #6056
[instance] 0x0 #6058
[attach-enode] #6058 0
[end-of-instance]
[mk-quant] #6055 user_vstd__array__array_len_matches_n_0 5 #6052 #6056
[attach-var-names] #6055 (|ar!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6057 not #6047
[mk-app] #6058 or #6057 #6055
[mk-app] #6059 => #6047 #6055
[inst-discovered] theory-solving 0x0 basic# ; #6059
[mk-app] #6060 = #6059 #6058
[instance] 0x0 #6060
[attach-enode] #6060 0
[end-of-instance]
[mk-app] #6059 req%vstd!array.ArrayAdditionalSpecFns.spec_index. #1592 #1573 #1593 #263 #32 #33
[mk-app] #6060 %%global_location_label%%5
[mk-app] #6061 => #6060 #5801
[mk-app] #6062 = #6059 #6061
[mk-app] #6063 pattern #6059
[mk-quant] #6064 internal_req__vstd!array.ArrayAdditionalSpecFns.spec_index._definition 6 #6063 #6062
[attach-var-names] #6064 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #6065 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #6065 = #512 #516
[instance] 0x0 #6065
[attach-enode] #6065 0
[end-of-instance]
[mk-app] #6065 <= #5799 #186
[mk-app] #6066 not #6065
[inst-discovered] theory-solving 0x0 arith# ; #5800
[mk-app] #6067 = #5800 #6066
[instance] 0x0 #6067
[attach-enode] #6067 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6067 * #365 #186
[mk-app] #6068 + #6067 #5799
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6065
[mk-app] #6067 = #6065 #5808
[instance] 0x0 #6067
[attach-enode] #6067 0
[end-of-instance]
[mk-app] #6067 not #6060
[mk-app] #6068 or #6067 #5812
[mk-app] #6069 => #6060 #5812
[inst-discovered] theory-solving 0x0 basic# ; #6069
[mk-app] #6070 = #6069 #6068
[instance] 0x0 #6070
[attach-enode] #6070 0
[end-of-instance]
[mk-app] #6069 = #6059 #6068
[mk-quant] #6070 internal_req__vstd!array.ArrayAdditionalSpecFns.spec_index._definition 6 #6063 #6069
[attach-var-names] #6070 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6065 vstd!array.ArrayAdditionalSpecFns.spec_index.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #6066 has_type #6065 #263
[mk-app] #6071 => #5806 #6066
[mk-app] #6072 pattern #6065
[mk-quant] #6073 internal_vstd!array.ArrayAdditionalSpecFns.spec_index.?_pre_post_definition 6 #6072 #6071
[attach-var-names] #6073 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6074 or #5821 #6066
[inst-discovered] theory-solving 0x0 basic# ; #6071
[mk-app] #6075 = #6071 #6074
[instance] 0x0 #6075
[attach-enode] #6075 0
[end-of-instance]
[mk-quant] #6075 internal_vstd!array.ArrayAdditionalSpecFns.spec_index.?_pre_post_definition 6 #6072 #6074
[attach-var-names] #6075 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6076 fuel_bool_default #1226
[mk-app] #6077 fuel_bool #1226
[mk-app] #6078 and #2798 #3204
[mk-app] #6079 ARRAY #1592 #1573 #1593 #263
[mk-app] #6080 vstd!array.ArrayAdditionalSpecFns.spec_index.? #120 #6079 #1592 #1573 #32 #33
[mk-app] #6081 vstd!view.View.view.? #120 #6079 #32
[mk-app] #6082 vstd!seq.Seq.index.? #1592 #1573 #6081 #33
[mk-app] #6083 = #6080 #6082
[mk-app] #6084 => #6078 #6083
[mk-app] #6085 pattern #6080
[mk-quant] #6086 internal_vstd!array.impl&__2.spec_index.?_definition 6 #6085 #6084
[attach-var-names] #6086 (|i!| ; |Poly|) (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6087 => #6077 #6086
[mk-app] #6088 not #6078
[mk-app] #6089 or #6088 #6083
[inst-discovered] theory-solving 0x0 basic# ; #6084
[mk-app] #6090 = #6084 #6089
[instance] 0x0 #6090
[attach-enode] #6090 0
[end-of-instance]
[mk-quant] #6090 internal_vstd!array.impl&__2.spec_index.?_definition 6 #6085 #6089
[attach-var-names] #6090 (|i!| ; |Poly|) (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6091 not #6077
[mk-app] #6092 or #6091 #6090
[mk-app] #6093 => #6077 #6090
[inst-discovered] theory-solving 0x0 basic# ; #6093
[mk-app] #6094 = #6093 #6092
[instance] 0x0 #6094
[attach-enode] #6094 0
[end-of-instance]
[mk-app] #6093 tr_bound%vstd!array.ArrayAdditionalSpecFns. #120 #3387 #1593 #263
[mk-app] #6094 => #3386 #6093
[mk-app] #6095 pattern #6093
[mk-quant] #6096 internal_vstd__array__impl&__2_trait_impl_definition 4 #6095 #6094
[attach-var-names] #6096 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6097 or #3393 #6093
[inst-discovered] theory-solving 0x0 basic# ; #6094
[mk-app] #6098 = #6094 #6097
[instance] 0x0 #6098
[attach-enode] #6098 0
[end-of-instance]
[mk-quant] #6098 internal_vstd__array__impl&__2_trait_impl_definition 4 #6095 #6097
[attach-var-names] #6098 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6099 fuel_bool #1227
[mk-app] #6100 has_type #32 #6079
[mk-app] #6101 and #6100 #185
[mk-app] #6102 < #186 #3203
[mk-app] #6103 and #512 #6102
[mk-app] #6104 and #6078 #6103
[mk-app] #6105 vstd!array.array_view.? #1592 #1573 #1593 #263 #32
[mk-app] #6106 vstd!seq.Seq.index.? #1592 #1573 #6105 #33
[mk-app] #6107 = #6082 #6106
[mk-app] #6108 => #6104 #6107
[mk-app] #6109 => #6101 #6108
[mk-app] #6110 %Poly%array%. #32
[mk-app] #6111 array_index #1592 #1573 #1593 #263 #6110 #33
[mk-app] #6112 pattern #6111
[mk-quant] #6113 user_vstd__array__lemma_array_index_0 6 #6112 #6109
[attach-var-names] #6113 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6114 => #6099 #6113
[attach-meaning] #365 arith (- 1)
[mk-app] #6115 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #6115 = #512 #516
[instance] 0x0 #6115
[attach-enode] #6115 0
[end-of-instance]
[mk-app] #6115 <= #3203 #186
[mk-app] #6116 not #6115
[inst-discovered] theory-solving 0x0 arith# ; #6102
[mk-app] #6117 = #6102 #6116
[instance] 0x0 #6117
[attach-enode] #6117 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6117 * #365 #186
[mk-app] #6118 + #6117 #3203
[attach-meaning] #365 arith (- 1)
[mk-app] #6119 * #365 #3203
[mk-app] #6120 + #186 #6119
[mk-app] #6117 >= #6120 #336
[inst-discovered] theory-solving 0x0 arith# ; #6115
[mk-app] #6118 = #6115 #6117
[instance] 0x0 #6118
[attach-enode] #6118 0
[end-of-instance]
[mk-app] #6118 not #6117
[mk-app] #6121 and #2798 #3204 #516 #6118
[mk-app] #6122 and #6078 #516 #6118
[inst-discovered] theory-solving 0x0 basic# ; #6122
[mk-app] #6123 = #6122 #6121
[instance] 0x0 #6123
[attach-enode] #6123 0
[end-of-instance]
[mk-app] #6122 not #6121
[mk-app] #6123 or #6122 #6107
[mk-app] #6124 => #6121 #6107
[inst-discovered] theory-solving 0x0 basic# ; #6124
[mk-app] #6125 = #6124 #6123
[instance] 0x0 #6125
[attach-enode] #6125 0
[end-of-instance]
[mk-app] #6124 not #6101
[mk-app] #6125 or #6124 #6122 #6107
[mk-app] #6126 => #6101 #6123
[inst-discovered] theory-solving 0x0 basic# ; #6126
[mk-app] #6127 = #6126 #6125
[instance] 0x0 #6127
[attach-enode] #6127 0
[end-of-instance]
[mk-quant] #6123 user_vstd__array__lemma_array_index_0 6 #6112 #6125
[attach-var-names] #6123 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6115 not #6099
[mk-app] #6116 or #6115 #6123
[mk-app] #6126 => #6099 #6123
[inst-discovered] theory-solving 0x0 basic# ; #6126
[mk-app] #6127 = #6126 #6116
[instance] 0x0 #6127
[attach-enode] #6127 0
[end-of-instance]
[mk-app] #6126 fuel_bool #1229
[mk-app] #6127 has_type #33 #6079
[mk-app] #6128 and #6100 #6127
[mk-app] #6129 ext_eq #2 #6079 #32 #33
[mk-app] #6130 const_int #1561
[mk-app] #6131 < #186 #6130
[mk-app] #6132 and #512 #6131
[mk-app] #6133 ARRAY #1615 #1616 #1560 #1561
[mk-app] #6134 vstd!view.View.view.? #120 #6133 #43
[mk-app] #6135 vstd!seq.Seq.index.? #1615 #1616 #6134 #33
[mk-app] #6136 vstd!view.View.view.? #120 #6133 #32
[mk-app] #6137 vstd!seq.Seq.index.? #1615 #1616 #6136 #33
[mk-app] #6138 = #6135 #6137
[mk-app] #6139 => #6132 #6138
[mk-app] #6140 => #185 #6139
[mk-app] #6141 pattern #6135
[mk-app] #6142 pattern #6137
[mk-quant] #6143 user_vstd__array__axiom_array_ext_equal_0 1 #6141 #6142 #6140
[attach-var-names] #6143 (|i$| ; |Poly|)
[mk-app] #6144 = #6129 #6143
[mk-app] #6145 => #6078 #6144
[mk-app] #6146 => #6128 #6145
[mk-app] #6147 pattern #6129
[mk-quant] #6148 user_vstd__array__axiom_array_ext_equal_1 6 #6147 #6146
[attach-var-names] #6148 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6149 => #6126 #6148
[attach-meaning] #365 arith (- 1)
[mk-app] #6150 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #6150 = #512 #516
[instance] 0x0 #6150
[attach-enode] #6150 0
[end-of-instance]
[mk-app] #6150 <= #6130 #186
[mk-app] #6151 not #6150
[inst-discovered] theory-solving 0x0 arith# ; #6131
[mk-app] #6152 = #6131 #6151
[instance] 0x0 #6152
[attach-enode] #6152 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6152 * #365 #186
[mk-app] #6153 + #6152 #6130
[attach-meaning] #365 arith (- 1)
[mk-app] #6154 * #365 #6130
[mk-app] #6155 + #186 #6154
[mk-app] #6152 >= #6155 #336
[inst-discovered] theory-solving 0x0 arith# ; #6150
[mk-app] #6153 = #6150 #6152
[instance] 0x0 #6153
[attach-enode] #6153 0
[end-of-instance]
[mk-app] #6153 not #6152
[mk-app] #6156 and #516 #6153
[mk-app] #6157 not #6156
[mk-app] #6158 or #6157 #6138
[mk-app] #6159 => #6156 #6138
[inst-discovered] theory-solving 0x0 basic# ; #6159
[mk-app] #6160 = #6159 #6158
[instance] 0x0 #6160
[attach-enode] #6160 0
[end-of-instance]
[mk-app] #6159 or #192 #6157 #6138
[mk-app] #6160 => #185 #6158
[inst-discovered] theory-solving 0x0 basic# ; #6160
[mk-app] #6161 = #6160 #6159
[instance] 0x0 #6161
[attach-enode] #6161 0
[end-of-instance]
[mk-quant] #6158 user_vstd__array__axiom_array_ext_equal_0 1 #6141 #6142 #6159
[attach-var-names] #6158 (|i$| ; |Poly|)
[mk-app] #6150 = #6129 #6158
[mk-app] #6151 or #6088 #6150
[mk-app] #6160 => #6078 #6150
[inst-discovered] theory-solving 0x0 basic# ; #6160
[mk-app] #6161 = #6160 #6151
[instance] 0x0 #6161
[attach-enode] #6161 0
[end-of-instance]
[mk-app] #6160 not #6128
[mk-app] #6161 or #6160 #6088 #6150
[mk-app] #6162 => #6128 #6151
[inst-discovered] theory-solving 0x0 basic# ; #6162
[mk-app] #6163 = #6162 #6161
[instance] 0x0 #6163
[attach-enode] #6163 0
[end-of-instance]
[mk-quant] #6151 user_vstd__array__axiom_array_ext_equal_1 6 #6147 #6161
[attach-var-names] #6151 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6162 not #6126
[mk-app] #6163 or #6162 #6151
[mk-app] #6164 => #6126 #6151
[inst-discovered] theory-solving 0x0 basic# ; #6164
[mk-app] #6165 = #6164 #6163
[instance] 0x0 #6165
[attach-enode] #6165 0
[end-of-instance]
[mk-app] #6164 fuel_bool #1230
[mk-app] #6165 has_resolved #120 #6079 #32
[mk-app] #6166 has_resolved #1592 #1573 #6082
[mk-app] #6167 => #6165 #6166
[mk-app] #6168 => #6103 #6167
[mk-app] #6169 => #6078 #6168
[mk-app] #6170 => #6101 #6169
[mk-app] #6171 pattern #6165 #6082
[mk-quant] #6172 user_vstd__array__axiom_array_has_resolved_0 6 #6171 #6170
[attach-var-names] #6172 (|i!| ; |Poly|) (|array!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6173 => #6164 #6172
[attach-meaning] #365 arith (- 1)
[mk-app] #6174 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #6174 = #512 #516
[instance] 0x0 #6174
[attach-enode] #6174 0
[end-of-instance]
[mk-app] #6174 <= #3203 #186
[mk-app] #6175 not #6174
[inst-discovered] theory-solving 0x0 arith# ; #6102
[mk-app] #6176 = #6102 #6175
[instance] 0x0 #6176
[attach-enode] #6176 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6176 * #365 #186
[mk-app] #6177 + #6176 #3203
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6174
[mk-app] #6176 = #6174 #6117
[instance] 0x0 #6176
[attach-enode] #6176 0
[end-of-instance]
[mk-app] #6176 and #516 #6118
[mk-app] #6177 not #6165
[mk-app] #6178 or #6177 #6166
[inst-discovered] theory-solving 0x0 basic# ; #6167
[mk-app] #6179 = #6167 #6178
[instance] 0x0 #6179
[attach-enode] #6179 0
[end-of-instance]
[mk-app] #6179 not #6176
[mk-app] #6180 or #6179 #6177 #6166
[mk-app] #6181 => #6176 #6178
[inst-discovered] theory-solving 0x0 basic# ; #6181
[mk-app] #6182 = #6181 #6180
[instance] 0x0 #6182
[attach-enode] #6182 0
[end-of-instance]
[mk-app] #6178 or #6088 #6179 #6177 #6166
[mk-app] #6181 => #6078 #6180
[inst-discovered] theory-solving 0x0 basic# ; #6181
[mk-app] #6182 = #6181 #6178
[instance] 0x0 #6182
[attach-enode] #6182 0
[end-of-instance]
[mk-app] #6180 or #6124 #6088 #6179 #6177 #6166
[mk-app] #6181 => #6101 #6178
[inst-discovered] theory-solving 0x0 basic# ; #6181
[mk-app] #6182 = #6181 #6180
[instance] 0x0 #6182
[attach-enode] #6182 0
[end-of-instance]
[mk-quant] #6178 user_vstd__array__axiom_array_has_resolved_0 6 #6171 #6180
[attach-var-names] #6178 (|i!| ; |Poly|) (|array!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6174 not #6164
[mk-app] #6175 or #6174 #6178
[mk-app] #6181 => #6164 #6178
[inst-discovered] theory-solving 0x0 basic# ; #6181
[mk-app] #6182 = #6181 #6175
[instance] 0x0 #6182
[attach-enode] #6182 0
[end-of-instance]
[mk-app] #6181 fuel_bool #1231
[mk-app] #6182 height #6030
[mk-app] #6183 height_lt #6182 #5967
[mk-app] #6184 => #6029 #6183
[mk-app] #6185 => #1649 #6184
[mk-app] #6186 pattern #6182
[mk-quant] #6187 user_vstd__array__axiom_array_decreases_to_seq_0 5 #6186 #6185
[attach-var-names] #6187 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6188 => #6181 #6187
[mk-app] #6189 or #6036 #6183
[inst-discovered] theory-solving 0x0 basic# ; #6184
[mk-app] #6190 = #6184 #6189
[instance] 0x0 #6190
[attach-enode] #6190 0
[end-of-instance]
[mk-app] #6190 or #1656 #6036 #6183
[mk-app] #6191 => #1649 #6189
[inst-discovered] theory-solving 0x0 basic# ; #6191
[mk-app] #6192 = #6191 #6190
[instance] 0x0 #6192
[attach-enode] #6192 0
[end-of-instance]
[mk-quant] #6189 user_vstd__array__axiom_array_decreases_to_seq_0 5 #6186 #6190
[attach-var-names] #6189 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6191 not #6181
[mk-app] #6192 or #6191 #6189
[mk-app] #6193 => #6181 #6189
[inst-discovered] theory-solving 0x0 basic# ; #6193
[mk-app] #6194 = #6193 #6192
[instance] 0x0 #6194
[attach-enode] #6194 0
[end-of-instance]
[mk-app] #6193 fuel_bool #1232
[mk-app] #6194 vstd!seq.Seq.len.? #1592 #1573 #6081
[mk-app] #6195 < #186 #6194
[mk-app] #6196 and #512 #6195
[mk-app] #6197 and #6078 #6196
[mk-app] #6198 height #6082
[mk-app] #6199 height_lt #6198 #763
[mk-app] #6200 => #6197 #6199
[mk-app] #6201 => #6101 #6200
[mk-app] #6202 pattern #6198
[mk-quant] #6203 user_vstd__array__lemma_array_index_decreases_0 6 #6202 #6201
[attach-var-names] #6203 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6204 => #6193 #6203
[attach-meaning] #365 arith (- 1)
[mk-app] #6205 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #6205 = #512 #516
[instance] 0x0 #6205
[attach-enode] #6205 0
[end-of-instance]
[mk-app] #6205 <= #6194 #186
[mk-app] #6206 not #6205
[inst-discovered] theory-solving 0x0 arith# ; #6195
[mk-app] #6207 = #6195 #6206
[instance] 0x0 #6207
[attach-enode] #6207 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6207 * #365 #186
[mk-app] #6208 + #6207 #6194
[attach-meaning] #365 arith (- 1)
[mk-app] #6209 * #365 #6194
[mk-app] #6210 + #186 #6209
[mk-app] #6207 >= #6210 #336
[inst-discovered] theory-solving 0x0 arith# ; #6205
[mk-app] #6208 = #6205 #6207
[instance] 0x0 #6208
[attach-enode] #6208 0
[end-of-instance]
[mk-app] #6208 not #6207
[mk-app] #6211 and #2798 #3204 #516 #6208
[mk-app] #6212 and #6078 #516 #6208
[inst-discovered] theory-solving 0x0 basic# ; #6212
[mk-app] #6213 = #6212 #6211
[instance] 0x0 #6213
[attach-enode] #6213 0
[end-of-instance]
[mk-app] #6212 not #6211
[mk-app] #6213 or #6212 #6199
[mk-app] #6214 => #6211 #6199
[inst-discovered] theory-solving 0x0 basic# ; #6214
[mk-app] #6215 = #6214 #6213
[instance] 0x0 #6215
[attach-enode] #6215 0
[end-of-instance]
[mk-app] #6214 or #6124 #6212 #6199
[mk-app] #6215 => #6101 #6213
[inst-discovered] theory-solving 0x0 basic# ; #6215
[mk-app] #6216 = #6215 #6214
[instance] 0x0 #6216
[attach-enode] #6216 0
[end-of-instance]
[mk-quant] #6213 user_vstd__array__lemma_array_index_decreases_0 6 #6202 #6214
[attach-var-names] #6213 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6205 not #6193
[mk-app] #6206 or #6205 #6213
[mk-app] #6215 => #6193 #6213
[inst-discovered] theory-solving 0x0 basic# ; #6215
[mk-app] #6216 = #6215 #6206
[instance] 0x0 #6216
[attach-enode] #6216 0
[end-of-instance]
[mk-app] #6215 vstd!raw_ptr.view_reverse_for_eq.? #64 #65 #33
[mk-app] #6216 PTR #64 #65
[mk-app] #6217 has_type #6215 #6216
[mk-app] #6218 => #2445 #6217
[mk-app] #6219 pattern #6215
[mk-quant] #6220 internal_vstd!raw_ptr.view_reverse_for_eq.?_pre_post_definition 3 #6219 #6218
[attach-var-names] #6220 (|data!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6221 or #2452 #6217
[inst-discovered] theory-solving 0x0 basic# ; #6218
[mk-app] #6222 = #6218 #6221
[instance] 0x0 #6222
[attach-enode] #6222 0
[end-of-instance]
[mk-quant] #6222 internal_vstd!raw_ptr.view_reverse_for_eq.?_pre_post_definition 3 #6219 #6221
[attach-var-names] #6222 (|data!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6223 tr_bound%vstd!view.View. #120 #3404
[mk-app] #6224 pattern #6223
[mk-quant] #6225 internal_vstd__raw_ptr__impl&__2_trait_impl_definition 2 #6224 #6223
[attach-var-names] #6225 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6226 fuel_bool #1238
[mk-app] #6227 has_type #33 #6216
[mk-app] #6228 vstd!view.View.view.? #120 #6216 #33
[mk-app] #6229 vstd!raw_ptr.view_reverse_for_eq.? #64 #65 #6228
[mk-app] #6230 = #6229 #33
[mk-app] #6231 => #6227 #6230
[mk-app] #6232 pattern #6228
[mk-quant] #6233 user_vstd__raw_ptr__ptrs_mut_eq_0 3 #6232 #6231
[attach-var-names] #6233 (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6234 => #6226 #6233
[mk-app] #6235 not #6227
[mk-app] #6236 or #6235 #6230
[inst-discovered] theory-solving 0x0 basic# ; #6231
[mk-app] #6237 = #6231 #6236
[instance] 0x0 #6237
[attach-enode] #6237 0
[end-of-instance]
[mk-quant] #6237 user_vstd__raw_ptr__ptrs_mut_eq_0 3 #6232 #6236
[attach-var-names] #6237 (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6238 not #6226
[mk-app] #6239 or #6238 #6237
[mk-app] #6240 => #6226 #6237
[inst-discovered] theory-solving 0x0 basic# ; #6240
[mk-app] #6241 = #6240 #6239
[instance] 0x0 #6241
[attach-enode] #6241 0
[end-of-instance]
[mk-app] #6240 has_type #32 #203
[mk-app] #6241 and #6240 #2017
[mk-app] #6242 vstd!raw_ptr.view_reverse_for_eq_sized.? #1593 #263 #32 #33
[mk-app] #6243 PTR #1593 #263
[mk-app] #6244 has_type #6242 #6243
[mk-app] #6245 => #6241 #6244
[mk-app] #6246 pattern #6242
[mk-quant] #6247 internal_vstd!raw_ptr.view_reverse_for_eq_sized.?_pre_post_definition 4 #6246 #6245
[attach-var-names] #6247 (|provenance!| ; |Poly|) (|addr!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6248 not #6241
[mk-app] #6249 or #6248 #6244
[inst-discovered] theory-solving 0x0 basic# ; #6245
[mk-app] #6250 = #6245 #6249
[instance] 0x0 #6250
[attach-enode] #6250 0
[end-of-instance]
[mk-quant] #6250 internal_vstd!raw_ptr.view_reverse_for_eq_sized.?_pre_post_definition 4 #6246 #6249
[attach-var-names] #6250 (|provenance!| ; |Poly|) (|addr!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6251 fuel_bool #1239
[mk-app] #6252 %Poly%vstd!raw_ptr.PtrData. #6228
[mk-app] #6253 vstd!raw_ptr.PtrData./PtrData/addr #6252
[mk-app] #6254 I #6253
[mk-app] #6255 vstd!raw_ptr.PtrData./PtrData/provenance #6252
[mk-app] #6256 Poly%vstd!raw_ptr.Provenance. #6255
[mk-app] #6257 vstd!raw_ptr.view_reverse_for_eq_sized.? #64 #65 #6254 #6256
[mk-app] #6258 = #6257 #33
[mk-app] #6259 => #5769 #6258
[mk-app] #6260 => #6227 #6259
[mk-quant] #6261 user_vstd__raw_ptr__ptrs_mut_eq_sized_0 3 #6232 #6260
[attach-var-names] #6261 (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6262 => #6251 #6261
[mk-app] #6263 or #5777 #6258
[inst-discovered] theory-solving 0x0 basic# ; #6259
[mk-app] #6264 = #6259 #6263
[instance] 0x0 #6264
[attach-enode] #6264 0
[end-of-instance]
[mk-app] #6264 or #6235 #5777 #6258
[mk-app] #6265 => #6227 #6263
[inst-discovered] theory-solving 0x0 basic# ; #6265
[mk-app] #6266 = #6265 #6264
[instance] 0x0 #6266
[attach-enode] #6266 0
[end-of-instance]
[mk-quant] #6263 user_vstd__raw_ptr__ptrs_mut_eq_sized_0 3 #6232 #6264
[attach-var-names] #6263 (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6265 not #6251
[mk-app] #6266 or #6265 #6263
[mk-app] #6267 => #6251 #6263
[inst-discovered] theory-solving 0x0 basic# ; #6267
[mk-app] #6268 = #6267 #6266
[instance] 0x0 #6268
[attach-enode] #6268 0
[end-of-instance]
[mk-app] #6267 tr_bound%core!clone.Clone. #120 #1707
[mk-app] #6268 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #1593 #263 #44 #45
[mk-app] #6269 has_type #6268 #135
[mk-app] #6270 pattern #6268
[mk-quant] #6271 internal_vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.?_pre_post_definition 4 #6270 #6269
[attach-var-names] #6271 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6272 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #6273 has_type #6272 #135
[mk-app] #6274 => #2596 #6273
[mk-app] #6275 pattern #6272
[mk-quant] #6276 internal_vstd!std_specs.cmp.PartialEqSpec.eq_spec.?_pre_post_definition 6 #6275 #6274
[attach-var-names] #6276 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6277 or #2604 #6273
[inst-discovered] theory-solving 0x0 basic# ; #6274
[mk-app] #6278 = #6274 #6277
[instance] 0x0 #6278
[attach-enode] #6278 0
[end-of-instance]
[mk-quant] #6278 internal_vstd!std_specs.cmp.PartialEqSpec.eq_spec.?_pre_post_definition 6 #6275 #6277
[attach-var-names] #6278 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6279 fuel_bool_default #796
[mk-app] #6280 fuel_bool #796
[mk-app] #6281 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1707 #120 #1707
[mk-app] #6282 B #1
[mk-app] #6283 = #6281 #6282
[mk-app] #6284 => #6280 #6283
[mk-app] #6285 not #6280
[mk-app] #6286 or #6285 #6283
[inst-discovered] theory-solving 0x0 basic# ; #6284
[mk-app] #6287 = #6284 #6286
[instance] 0x0 #6287
[attach-enode] #6287 0
[end-of-instance]
[mk-app] #6287 fuel_bool_default #797
[mk-app] #6288 fuel_bool #797
[mk-app] #6289 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1707 #120 #1707 #32 #33
[mk-app] #6290 B #264
[mk-app] #6291 = #6289 #6290
[mk-app] #6292 pattern #6289
[mk-quant] #6293 internal_vstd!std_specs.num.u8_specs_tmp.impl&__0.eq_spec.?_definition 2 #6292 #6291
[attach-var-names] #6293 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6294 => #6288 #6293
[mk-app] #6295 not #6288
[mk-app] #6296 or #6295 #6293
[inst-discovered] theory-solving 0x0 basic# ; #6294
[mk-app] #6297 = #6294 #6296
[instance] 0x0 #6297
[attach-enode] #6297 0
[end-of-instance]
[mk-app] #6297 tr_bound%core!cmp.PartialEq. #120 #1707 #120 #1707
[mk-app] #6298 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1707 #120 #1707
[mk-app] #6299 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #1593 #263 #44 #45
[mk-app] #6300 has_type #6299 #135
[mk-app] #6301 pattern #6299
[mk-quant] #6302 internal_vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.?_pre_post_definition 4 #6301 #6300
[attach-var-names] #6302 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6303 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #6304 has_type #6303 #5117
[mk-app] #6305 => #2596 #6304
[mk-app] #6306 pattern #6303
[mk-quant] #6307 internal_vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.?_pre_post_definition 6 #6306 #6305
[attach-var-names] #6307 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6308 or #2604 #6304
[inst-discovered] theory-solving 0x0 basic# ; #6305
[mk-app] #6309 = #6305 #6308
[instance] 0x0 #6309
[attach-enode] #6309 0
[end-of-instance]
[mk-quant] #6309 internal_vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.?_pre_post_definition 6 #6306 #6308
[attach-var-names] #6309 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6310 ens%core!cmp.PartialOrd.partial_cmp. #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #6311 has_type #33 #5117
[mk-app] #6312 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #1615 #1616 #1560 #1561
[mk-app] #6313 %B #6312
[mk-app] #6314 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #1615 #1616 #1560 #1561 #43 #32
[mk-app] #6315 = #33 #6314
[mk-app] #6316 => #6313 #6315
[mk-app] #6317 and #6311 #6316
[mk-app] #6318 = #6310 #6317
[mk-app] #6319 pattern #6310
[mk-quant] #6320 internal_ens__core!cmp.PartialOrd.partial_cmp._definition 7 #6319 #6318
[attach-var-names] #6320 (|r!| ; |Poly|) (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6321 not #6313
[mk-app] #6322 or #6321 #6315
[inst-discovered] theory-solving 0x0 basic# ; #6316
[mk-app] #6323 = #6316 #6322
[instance] 0x0 #6323
[attach-enode] #6323 0
[end-of-instance]
[mk-app] #6323 and #6311 #6322
[mk-app] #6324 = #6310 #6323
[mk-quant] #6325 internal_ens__core!cmp.PartialOrd.partial_cmp._definition 7 #6319 #6324
[attach-var-names] #6325 (|r!| ; |Poly|) (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6326 has_type #5623 #5107
[mk-app] #6327 %Poly%tuple%2. #5623
[mk-app] #6328 tuple%2./tuple%2/0 #6327
[mk-app] #6329 tuple%2./tuple%2/1 #6327
[mk-app] #6327 fndef_singleton
[mk-app] #6328 F #6327
[mk-app] #6329 closure_req #2770 #5106 #5107 #6328 #5623
[mk-app] #6330 => #1 #6329
[mk-app] #6331 => #6326 #6330
[mk-app] #6332 pattern #6329
[mk-quant] #6333 user_core__cmp__PartialOrd__partial_cmp_0 5 #6332 #6331
[attach-var-names] #6333 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|closure%$| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #6330
[mk-app] #6334 = #6330 #6329
[instance] 0x0 #6334
[attach-enode] #6334 0
[end-of-instance]
[mk-app] #6334 not #6326
[mk-app] #6335 or #6334 #6329
[mk-app] #6336 => #6326 #6329
[inst-discovered] theory-solving 0x0 basic# ; #6336
[mk-app] #6337 = #6336 #6335
[instance] 0x0 #6337
[attach-enode] #6337 0
[end-of-instance]
[mk-quant] #6336 user_core__cmp__PartialOrd__partial_cmp_0 5 #6332 #6335
[attach-var-names] #6336 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|closure%$| ; |Poly|)
[mk-var] #6337 5
[mk-app] #6338 has_type #6337 #5107
[mk-app] #6339 has_type #5623 #5117
[mk-app] #6340 and #6338 #6339
[mk-app] #6341 closure_ens #2770 #5106 #5107 #6328 #6337 #5623
[mk-app] #6342 %Poly%tuple%2. #6337
[mk-app] #6343 tuple%2./tuple%2/0 #6342
[mk-app] #6344 tuple%2./tuple%2/1 #6342
[mk-app] #6345 %B #6299
[mk-app] #6346 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #1593 #263 #44 #45 #6343 #6344
[mk-app] #6347 = #5623 #6346
[mk-app] #6348 => #6345 #6347
[mk-app] #6349 => #6341 #6348
[mk-app] #6350 => #6340 #6349
[mk-app] #6351 pattern #6341
[mk-quant] #6352 user_core__cmp__PartialOrd__partial_cmp_1 6 #6351 #6350
[attach-var-names] #6352 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|r$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #6353 not #6345
[mk-app] #6354 or #6353 #6347
[inst-discovered] theory-solving 0x0 basic# ; #6348
[mk-app] #6355 = #6348 #6354
[instance] 0x0 #6355
[attach-enode] #6355 0
[end-of-instance]
[mk-app] #6355 not #6341
[mk-app] #6356 or #6355 #6353 #6347
[mk-app] #6357 => #6341 #6354
[inst-discovered] theory-solving 0x0 basic# ; #6357
[mk-app] #6358 = #6357 #6356
[instance] 0x0 #6358
[attach-enode] #6358 0
[end-of-instance]
[mk-app] #6354 not #6340
[mk-app] #6357 or #6354 #6355 #6353 #6347
[mk-app] #6358 => #6340 #6356
[inst-discovered] theory-solving 0x0 basic# ; #6358
[mk-app] #6359 = #6358 #6357
[instance] 0x0 #6359
[attach-enode] #6359 0
[end-of-instance]
[mk-quant] #6356 user_core__cmp__PartialOrd__partial_cmp_1 6 #6351 #6357
[attach-var-names] #6356 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|r$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-var] #6358 7
[mk-app] #6359 ens%core!cmp.PartialOrd.le. #6358 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #6360 %Poly%core!option.Option. #6314
[mk-app] #6361 is-core!option.Option./Some #6360
[mk-app] #6362 Poly%core!option.Option. #6360
[mk-app] #6363 %Poly%core!option.Option. #6362
[mk-app] #6364 core!option.Option./Some/0 #120 #2096 #6363
[mk-app] #6365 %Poly%core!cmp.Ordering. #6364
[mk-app] #6366 is-core!cmp.Ordering./Less #6365
[mk-app] #6367 is-core!cmp.Ordering./Equal #6365
[mk-app] #6368 or #6366 #6367
[mk-app] #6369 and #6361 #6368
[mk-app] #6370 = #175 #6369
[mk-app] #6371 => #6313 #6370
[mk-app] #6372 FNDEF%core!cmp.PartialOrd.partial_cmp. #3199 #1621 #1592 #1573
[mk-app] #6373 REF #1592
[mk-app] #6374 DST #6373
[mk-app] #6375 REF #3199
[mk-app] #6376 TYPE%tuple%2. #6375 #1621 #6373 #1573
[mk-app] #6377 tuple%2./tuple%2 #63 #43
[mk-app] #6378 Poly%tuple%2. #6377
[mk-app] #6379 closure_ens #6372 #6374 #6376 #6328 #6378 #33
[mk-app] #6380 %B #32
[mk-app] #6381 core!option.Option./Some/0 #120 #2096 #2118
[mk-app] #6382 %Poly%core!cmp.Ordering. #6381
[mk-app] #6383 is-core!cmp.Ordering./Less #6382
[mk-app] #6384 is-core!cmp.Ordering./Equal #6382
[mk-app] #6385 or #6383 #6384
[mk-app] #6386 and #2186 #6385
[mk-app] #6387 = #6380 #6386
[mk-app] #6388 and #6379 #6387
[mk-app] #6389 and #6311 #6388
[mk-app] #6390 pattern #6379
[mk-quant] #6391 user_core__cmp__PartialOrd__le_0 1 #6390 #6389
[attach-var-names] #6391 (|o$| ; |Poly|)
[mk-app] #6392 => #6358 #6391
[mk-app] #6393 and #174 #6371 #6392
[mk-app] #6394 = #6359 #6393
[mk-app] #6395 pattern #6359
[mk-quant] #6396 internal_ens__core!cmp.PartialOrd.le._definition 8 #6395 #6394
[attach-var-names] #6396 (|r!| ; |Poly|) (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #6397 is #6360
[inst-discovered] theory-solving 0x0 datatype# ; #6361
[mk-app] #6398 = #6361 #6397
[instance] 0x0 #6398
[attach-enode] #6398 0
[end-of-instance]
[mk-app] #6398 is #6365
[inst-discovered] theory-solving 0x0 datatype# ; #6366
[mk-app] #6399 = #6366 #6398
[instance] 0x0 #6399
[attach-enode] #6399 0
[end-of-instance]
[mk-app] #6399 is #6365
[inst-discovered] theory-solving 0x0 datatype# ; #6367
[mk-app] #6400 = #6367 #6399
[instance] 0x0 #6400
[attach-enode] #6400 0
[end-of-instance]
[mk-app] #6400 or #6398 #6399
[inst-discovered] theory-solving 0x0 basic# ; #6400
[mk-app] #6401 = #6400 #6400
[instance] 0x0 #6401
[attach-enode] #6401 0
[end-of-instance]
[mk-app] #6401 and #6397 #6400
[mk-app] #6402 = #175 #6401
[mk-app] #6403 or #6321 #6402
[mk-app] #6404 => #6313 #6402
[inst-discovered] theory-solving 0x0 basic# ; #6404
[mk-app] #6405 = #6404 #6403
[instance] 0x0 #6405
[attach-enode] #6405 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2186
[mk-app] #6404 = #2186 #2194
[instance] 0x0 #6404
[attach-enode] #6404 0
[end-of-instance]
[mk-app] #6404 is #6382
[inst-discovered] theory-solving 0x0 datatype# ; #6383
[mk-app] #6405 = #6383 #6404
[instance] 0x0 #6405
[attach-enode] #6405 0
[end-of-instance]
[mk-app] #6405 is #6382
[inst-discovered] theory-solving 0x0 datatype# ; #6384
[mk-app] #6406 = #6384 #6405
[instance] 0x0 #6406
[attach-enode] #6406 0
[end-of-instance]
[mk-app] #6406 or #6404 #6405
[inst-discovered] theory-solving 0x0 basic# ; #6406
[mk-app] #6407 = #6406 #6406
[instance] 0x0 #6407
[attach-enode] #6407 0
[end-of-instance]
[mk-app] #6407 and #2194 #6406
[mk-app] #6408 = #6380 #6407
[mk-app] #6409 and #6311 #6379 #6408
[mk-quant] #6410 user_core__cmp__PartialOrd__le_0 1 #6390 #6409
[attach-var-names] #6410 (|o$| ; |Poly|)
[mk-app] #6411 not #6358
[mk-app] #6412 or #6411 #6410
[mk-app] #6413 => #6358 #6410
[inst-discovered] theory-solving 0x0 basic# ; #6413
[mk-app] #6414 = #6413 #6412
[instance] 0x0 #6414
[attach-enode] #6414 0
[end-of-instance]
[mk-app] #6413 and #174 #6403 #6412
[mk-app] #6414 = #6359 #6413
[mk-quant] #6415 internal_ens__core!cmp.PartialOrd.le._definition 8 #6395 #6414
[attach-var-names] #6415 (|r!| ; |Poly|) (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #6416 fuel_bool_default #798
[mk-app] #6417 fuel_bool #798
[mk-app] #6418 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1707 #120 #1707
[mk-app] #6419 = #6418 #6282
[mk-app] #6420 => #6417 #6419
[mk-app] #6421 not #6417
[mk-app] #6422 or #6421 #6419
[inst-discovered] theory-solving 0x0 basic# ; #6420
[mk-app] #6423 = #6420 #6422
[instance] 0x0 #6423
[attach-enode] #6423 0
[end-of-instance]
[mk-app] #6423 fuel_bool_default #799
[mk-app] #6424 fuel_bool #799
[mk-app] #6425 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1707 #120 #1707 #32 #33
[mk-app] #6426 < #676 #186
[mk-app] #6427 core!cmp.Ordering./Less
[mk-app] #6428 Poly%core!cmp.Ordering. #6427
[mk-app] #6429 core!option.Option./Some #6428
[mk-app] #6430 > #676 #186
[mk-app] #6431 core!cmp.Ordering./Greater
[mk-app] #6432 Poly%core!cmp.Ordering. #6431
[mk-app] #6433 core!option.Option./Some #6432
[mk-app] #6434 core!cmp.Ordering./Equal
[mk-app] #6435 Poly%core!cmp.Ordering. #6434
[mk-app] #6436 core!option.Option./Some #6435
[mk-app] #6437 if #6430 #6433 #6436
[mk-app] #6438 if #6426 #6429 #6437
[mk-app] #6439 Poly%core!option.Option. #6438
[mk-app] #6440 = #6425 #6439
[mk-app] #6441 pattern #6425
[mk-quant] #6442 internal_vstd!std_specs.num.u8_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6441 #6440
[attach-var-names] #6442 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6443 => #6424 #6442
[mk-app] #6444 <= #186 #676
[mk-app] #6445 not #6444
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #6446 = #6426 #6445
[instance] 0x0 #6446
[attach-enode] #6446 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6446 <= #5269 #336
[inst-discovered] theory-solving 0x0 arith# ; #6444
[mk-app] #6447 = #6444 #6446
[instance] 0x0 #6447
[attach-enode] #6447 0
[end-of-instance]
[mk-app] #6447 not #6446
[mk-app] #6448 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #6449 = #6430 #6448
[instance] 0x0 #6449
[attach-enode] #6449 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6449 * #365 #186
[mk-app] #6450 + #6449 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #6449 = #5258 #5266
[instance] 0x0 #6449
[attach-enode] #6449 0
[end-of-instance]
[mk-app] #6449 not #5266
[mk-app] #6450 if #5266 #6436 #6433
[mk-app] #6451 if #6449 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #6451
[mk-app] #6452 = #6451 #6450
[instance] 0x0 #6452
[attach-enode] #6452 0
[end-of-instance]
[mk-app] #6451 if #6446 #6450 #6429
[mk-app] #6452 if #6447 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #6452
[mk-app] #6453 = #6452 #6451
[instance] 0x0 #6453
[attach-enode] #6453 0
[end-of-instance]
[mk-app] #6452 Poly%core!option.Option. #6451
[mk-app] #6453 = #6425 #6452
[mk-quant] #6454 internal_vstd!std_specs.num.u8_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6441 #6453
[attach-var-names] #6454 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6447 not #6424
[mk-app] #6444 or #6447 #6454
[mk-app] #6445 => #6424 #6454
[inst-discovered] theory-solving 0x0 basic# ; #6445
[mk-app] #6449 = #6445 #6444
[instance] 0x0 #6449
[attach-enode] #6449 0
[end-of-instance]
[mk-app] #6445 tr_bound%core!cmp.PartialOrd. #120 #1707 #120 #1707
[mk-app] #6449 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1707 #120 #1707
[mk-app] #6448 vstd!std_specs.iter.StepSpec.spec_is_lt.? #1593 #263 #32 #33
[mk-app] #6455 has_type #6448 #135
[mk-app] #6456 => #2316 #6455
[mk-app] #6457 pattern #6448
[mk-quant] #6458 internal_vstd!std_specs.iter.StepSpec.spec_is_lt.?_pre_post_definition 4 #6457 #6456
[attach-var-names] #6458 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6459 or #2324 #6455
[inst-discovered] theory-solving 0x0 basic# ; #6456
[mk-app] #6460 = #6456 #6459
[instance] 0x0 #6460
[attach-enode] #6460 0
[end-of-instance]
[mk-quant] #6460 internal_vstd!std_specs.iter.StepSpec.spec_is_lt.?_pre_post_definition 4 #6457 #6459
[attach-var-names] #6460 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6461 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #1593 #263 #32 #33
[mk-app] #6462 has_type #6461 #184
[mk-app] #6463 => #2316 #6462
[mk-app] #6464 pattern #6461
[mk-quant] #6465 internal_vstd!std_specs.iter.StepSpec.spec_steps_between_int.?_pre_post_definition 4 #6464 #6463
[attach-var-names] #6465 (|end!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6466 or #2324 #6462
[inst-discovered] theory-solving 0x0 basic# ; #6463
[mk-app] #6467 = #6463 #6466
[instance] 0x0 #6467
[attach-enode] #6467 0
[end-of-instance]
[mk-quant] #6467 internal_vstd!std_specs.iter.StepSpec.spec_steps_between_int.?_pre_post_definition 4 #6464 #6466
[attach-var-names] #6467 (|end!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6468 and #2314 #204
[mk-app] #6469 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #1593 #263 #32 #33
[mk-app] #6470 TYPE%core!option.Option. #1593 #263
[mk-app] #6471 has_type #6469 #6470
[mk-app] #6472 => #6468 #6471
[mk-app] #6473 pattern #6469
[mk-quant] #6474 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked.?_pre_post_definition 4 #6473 #6472
[attach-var-names] #6474 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6475 not #6468
[mk-app] #6476 or #6475 #6471
[inst-discovered] theory-solving 0x0 basic# ; #6472
[mk-app] #6477 = #6472 #6476
[instance] 0x0 #6477
[attach-enode] #6477 0
[end-of-instance]
[mk-quant] #6477 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked.?_pre_post_definition 4 #6473 #6476
[attach-var-names] #6477 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6478 and #2314 #185
[mk-app] #6479 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #1593 #263 #32 #33
[mk-app] #6480 has_type #6479 #6470
[mk-app] #6481 => #6478 #6480
[mk-app] #6482 pattern #6479
[mk-quant] #6483 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked_int.?_pre_post_definition 4 #6482 #6481
[attach-var-names] #6483 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6484 not #6478
[mk-app] #6485 or #6484 #6480
[inst-discovered] theory-solving 0x0 basic# ; #6481
[mk-app] #6486 = #6481 #6485
[instance] 0x0 #6486
[attach-enode] #6486 0
[end-of-instance]
[mk-quant] #6486 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked_int.?_pre_post_definition 4 #6482 #6485
[attach-var-names] #6486 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6487 fuel_bool_default #1131
[mk-app] #6488 fuel_bool #1131
[mk-app] #6489 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1707 #32 #33
[mk-app] #6490 B #6426
[mk-app] #6491 = #6489 #6490
[mk-app] #6492 pattern #6489
[mk-quant] #6493 internal_vstd!std_specs.range.impl&__19.spec_is_lt.?_definition 2 #6492 #6491
[attach-var-names] #6493 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6494 => #6488 #6493
[mk-app] #6495 <= #186 #676
[mk-app] #6496 not #6495
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #6497 = #6426 #6496
[instance] 0x0 #6497
[attach-enode] #6497 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6495
[mk-app] #6497 = #6495 #6446
[instance] 0x0 #6497
[attach-enode] #6497 0
[end-of-instance]
[mk-app] #6497 not #6446
[mk-app] #6498 B #6497
[mk-app] #6499 = #6489 #6498
[mk-quant] #6500 internal_vstd!std_specs.range.impl&__19.spec_is_lt.?_definition 2 #6492 #6499
[attach-var-names] #6500 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6495 not #6488
[mk-app] #6496 or #6495 #6500
[mk-app] #6501 => #6488 #6500
[inst-discovered] theory-solving 0x0 basic# ; #6501
[mk-app] #6502 = #6501 #6496
[instance] 0x0 #6502
[attach-enode] #6502 0
[end-of-instance]
[mk-app] #6501 fuel_bool_default #1132
[mk-app] #6502 fuel_bool #1132
[mk-app] #6503 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1707 #32 #33
[mk-app] #6504 I #5568
[mk-app] #6505 = #6503 #6504
[mk-app] #6506 pattern #6503
[mk-quant] #6507 internal_vstd!std_specs.range.impl&__19.spec_steps_between_int.?_definition 2 #6506 #6505
[attach-var-names] #6507 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6508 => #6502 #6507
[mk-app] #6509 not #6502
[mk-app] #6510 or #6509 #6507
[inst-discovered] theory-solving 0x0 basic# ; #6508
[mk-app] #6511 = #6508 #6510
[instance] 0x0 #6511
[attach-enode] #6511 0
[end-of-instance]
[mk-app] #6511 => #5000 #2955
[mk-quant] #6512 internal_vstd__std_specs__iter__impl&__16_trait_impl_definition 2 #2958 #6511
[attach-var-names] #6512 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #6513 or #5007 #2955
[inst-discovered] theory-solving 0x0 basic# ; #6511
[mk-app] #6514 = #6511 #6513
[instance] 0x0 #6514
[attach-enode] #6514 0
[end-of-instance]
[mk-quant] #6514 internal_vstd__std_specs__iter__impl&__16_trait_impl_definition 2 #2958 #6513
[attach-var-names] #6514 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #6515 fuel_bool_default #1134
[mk-app] #6516 fuel_bool #1134
[mk-app] #6517 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1707 #32 #33
[mk-app] #6518 Add #676 #186
[mk-app] #6519 Int
[attach-meaning] #6519 arith 255
[mk-app] #6520 <= #6518 #6519
[mk-app] #6521 uClip #275 #6518
[mk-app] #6522 I #6521
[mk-app] #6523 core!option.Option./Some #6522
[mk-app] #6524 if #6520 #6523 #2127
[mk-app] #6525 Poly%core!option.Option. #6524
[mk-app] #6526 = #6517 #6525
[mk-app] #6527 pattern #6517
[mk-quant] #6528 internal_vstd!std_specs.range.impl&__19.spec_forward_checked_int.?_definition 2 #6527 #6526
[attach-var-names] #6528 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6529 => #6516 #6528
[mk-app] #6530 not #6516
[mk-app] #6531 or #6530 #6528
[inst-discovered] theory-solving 0x0 basic# ; #6529
[mk-app] #6532 = #6529 #6531
[instance] 0x0 #6532
[attach-enode] #6532 0
[end-of-instance]
[mk-app] #6532 fuel_bool_default #1133
[mk-app] #6533 fuel_bool #1133
[mk-app] #6534 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1707 #32 #33
[mk-app] #6535 = #6534 #6517
[mk-app] #6536 pattern #6534
[mk-quant] #6537 internal_vstd!std_specs.range.impl&__19.spec_forward_checked.?_definition 2 #6536 #6535
[attach-var-names] #6537 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6538 => #6533 #6537
[mk-app] #6539 not #6533
[mk-app] #6540 or #6539 #6537
[inst-discovered] theory-solving 0x0 basic# ; #6538
[mk-app] #6541 = #6538 #6540
[instance] 0x0 #6541
[attach-enode] #6541 0
[end-of-instance]
[mk-app] #6541 tr_bound%core!iter.range.Step. #120 #1707
[mk-app] #6542 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1707
[mk-app] #6543 vstd!std_specs.range.spec_range_next.? #64 #65 #33
[mk-app] #6544 Poly%tuple%2. #6543
[mk-app] #6545 TYPE%tuple%2. #120 #2303 #120 #2116
[mk-app] #6546 has_type #6544 #6545
[mk-app] #6547 => #2304 #6546
[mk-app] #6548 pattern #6543
[mk-quant] #6549 internal_vstd!std_specs.range.spec_range_next.?_pre_post_definition 3 #6548 #6547
[attach-var-names] #6549 (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6550 or #2311 #6546
[inst-discovered] theory-solving 0x0 basic# ; #6547
[mk-app] #6551 = #6547 #6550
[instance] 0x0 #6551
[attach-enode] #6551 0
[end-of-instance]
[mk-quant] #6551 internal_vstd!std_specs.range.spec_range_next.?_pre_post_definition 3 #6548 #6550
[attach-var-names] #6551 (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6552 fuel_bool #1135
[mk-app] #6553 TYPE%core!ops.range.Range. #120 #1707
[mk-app] #6554 has_type #33 #6553
[mk-app] #6555 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1707 #2332 #2344
[mk-app] #6556 %B #6555
[mk-app] #6557 I #291
[mk-app] #6558 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1707 #2332 #6557
[mk-app] #6559 %Poly%core!option.Option. #6558
[mk-app] #6560 is-core!option.Option./Some #6559
[mk-app] #6561 Poly%core!option.Option. #6559
[mk-app] #6562 %Poly%core!option.Option. #6561
[mk-app] #6563 core!option.Option./Some/0 #120 #1707 #6562
[mk-app] #6564 %I #6563
[mk-app] #6565 vstd!std_specs.range.spec_range_next.? #120 #1707 #33
[mk-app] #6566 I #6564
[mk-app] #6567 core!ops.range.Range./Range #6566 #2344
[mk-app] #6568 Poly%core!ops.range.Range. #6567
[mk-app] #6569 core!option.Option./Some #2332
[mk-app] #6570 Poly%core!option.Option. #6569
[mk-app] #6571 tuple%2./tuple%2 #6568 #6570
[mk-app] #6572 = #6565 #6571
[mk-app] #6573 => #6560 #6572
[mk-app] #6574 => #6556 #6573
[mk-app] #6575 not #6556
[mk-app] #6576 tuple%2./tuple%2 #33 #2128
[mk-app] #6577 = #6565 #6576
[mk-app] #6578 => #6575 #6577
[mk-app] #6579 and #6574 #6578
[mk-app] #6580 => #6554 #6579
[mk-app] #6581 pattern #6565
[mk-quant] #6582 user_vstd__std_specs__range__axiom_spec_range_next_u8_0 1 #6581 #6580
[attach-var-names] #6582 (|range!| ; |Poly|)
[mk-app] #6583 => #6552 #6582
[mk-app] #6584 is #6559
[inst-discovered] theory-solving 0x0 datatype# ; #6560
[mk-app] #6585 = #6560 #6584
[instance] 0x0 #6585
[attach-enode] #6585 0
[end-of-instance]
[mk-app] #6585 not #6584
[mk-app] #6586 or #6585 #6572
[mk-app] #6587 => #6584 #6572
[inst-discovered] theory-solving 0x0 basic# ; #6587
[mk-app] #6588 = #6587 #6586
[instance] 0x0 #6588
[attach-enode] #6588 0
[end-of-instance]
[mk-app] #6587 or #6575 #6585 #6572
[mk-app] #6588 => #6556 #6586
[inst-discovered] theory-solving 0x0 basic# ; #6588
[mk-app] #6589 = #6588 #6587
[instance] 0x0 #6589
[attach-enode] #6589 0
[end-of-instance]
[mk-app] #6586 or #6556 #6577
[inst-discovered] theory-solving 0x0 basic# ; #6578
[mk-app] #6588 = #6578 #6586
[instance] 0x0 #6588
[attach-enode] #6588 0
[end-of-instance]
[mk-app] #6588 and #6587 #6586
[mk-app] #6589 not #6554
[mk-app] #6590 or #6589 #6588
[mk-app] #6591 => #6554 #6588
[inst-discovered] theory-solving 0x0 basic# ; #6591
[mk-app] #6592 = #6591 #6590
[instance] 0x0 #6592
[attach-enode] #6592 0
[end-of-instance]
[mk-quant] #6591 user_vstd__std_specs__range__axiom_spec_range_next_u8_0 1 #6581 #6590
[attach-var-names] #6591 (|range!| ; |Poly|)
[mk-app] #6592 not #6552
[mk-app] #6593 or #6592 #6591
[mk-app] #6594 => #6552 #6591
[inst-discovered] theory-solving 0x0 basic# ; #6594
[mk-app] #6595 = #6594 #6593
[instance] 0x0 #6595
[attach-enode] #6595 0
[end-of-instance]
[attach-meaning] #279 arith 16
[mk-app] #6594 tr_bound%core!clone.Clone. #120 #1728
[mk-app] #6595 fuel_bool_default #804
[mk-app] #6596 fuel_bool #804
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6597 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1728 #120 #1728
[mk-app] #6598 = #6597 #6282
[mk-app] #6599 => #6596 #6598
[mk-app] #6600 not #6596
[mk-app] #6601 or #6600 #6598
[inst-discovered] theory-solving 0x0 basic# ; #6599
[mk-app] #6602 = #6599 #6601
[instance] 0x0 #6602
[attach-enode] #6602 0
[end-of-instance]
[mk-app] #6602 fuel_bool_default #805
[mk-app] #6603 fuel_bool #805
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6604 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1728 #120 #1728 #32 #33
[mk-app] #6605 = #6604 #6290
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6606 pattern #6604
[mk-quant] #6607 internal_vstd!std_specs.num.u16_specs_tmp.impl&__0.eq_spec.?_definition 2 #6606 #6605
[attach-var-names] #6607 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6608 => #6603 #6607
[mk-app] #6609 not #6603
[mk-app] #6610 or #6609 #6607
[inst-discovered] theory-solving 0x0 basic# ; #6608
[mk-app] #6611 = #6608 #6610
[instance] 0x0 #6611
[attach-enode] #6611 0
[end-of-instance]
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6611 tr_bound%core!cmp.PartialEq. #120 #1728 #120 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6612 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1728 #120 #1728
[mk-app] #6613 fuel_bool_default #806
[mk-app] #6614 fuel_bool #806
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6615 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1728 #120 #1728
[mk-app] #6616 = #6615 #6282
[mk-app] #6617 => #6614 #6616
[mk-app] #6618 not #6614
[mk-app] #6619 or #6618 #6616
[inst-discovered] theory-solving 0x0 basic# ; #6617
[mk-app] #6620 = #6617 #6619
[instance] 0x0 #6620
[attach-enode] #6620 0
[end-of-instance]
[mk-app] #6620 fuel_bool_default #807
[mk-app] #6621 fuel_bool #807
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6622 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1728 #120 #1728 #32 #33
[mk-app] #6623 = #6622 #6439
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6624 pattern #6622
[mk-quant] #6625 internal_vstd!std_specs.num.u16_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6624 #6623
[attach-var-names] #6625 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6626 => #6621 #6625
[mk-app] #6627 <= #186 #676
[mk-app] #6628 not #6627
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #6629 = #6426 #6628
[instance] 0x0 #6629
[attach-enode] #6629 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6627
[mk-app] #6629 = #6627 #6446
[instance] 0x0 #6629
[attach-enode] #6629 0
[end-of-instance]
[mk-app] #6629 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #6630 = #6430 #6629
[instance] 0x0 #6630
[attach-enode] #6630 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6630 * #365 #186
[mk-app] #6631 + #6630 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #6630 = #5258 #5266
[instance] 0x0 #6630
[attach-enode] #6630 0
[end-of-instance]
[mk-app] #6630 not #5266
[mk-app] #6631 if #6630 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #6631
[mk-app] #6632 = #6631 #6450
[instance] 0x0 #6632
[attach-enode] #6632 0
[end-of-instance]
[mk-app] #6631 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #6631
[mk-app] #6632 = #6631 #6451
[instance] 0x0 #6632
[attach-enode] #6632 0
[end-of-instance]
[mk-app] #6631 = #6622 #6452
[mk-quant] #6632 internal_vstd!std_specs.num.u16_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6624 #6631
[attach-var-names] #6632 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6627 not #6621
[mk-app] #6628 or #6627 #6632
[mk-app] #6630 => #6621 #6632
[inst-discovered] theory-solving 0x0 basic# ; #6630
[mk-app] #6629 = #6630 #6628
[instance] 0x0 #6629
[attach-enode] #6629 0
[end-of-instance]
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6630 tr_bound%core!cmp.PartialOrd. #120 #1728 #120 #1728
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #6629 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1728 #120 #1728
[mk-app] #6633 fuel_bool_default #1136
[mk-app] #6634 fuel_bool #1136
[attach-meaning] #279 arith 16
[mk-app] #6635 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1728 #32 #33
[mk-app] #6636 = #6635 #6490
[attach-meaning] #279 arith 16
[mk-app] #6637 pattern #6635
[mk-quant] #6638 internal_vstd!std_specs.range.impl&__20.spec_is_lt.?_definition 2 #6637 #6636
[attach-var-names] #6638 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6639 => #6634 #6638
[mk-app] #6640 <= #186 #676
[mk-app] #6641 not #6640
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #6642 = #6426 #6641
[instance] 0x0 #6642
[attach-enode] #6642 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6640
[mk-app] #6642 = #6640 #6446
[instance] 0x0 #6642
[attach-enode] #6642 0
[end-of-instance]
[mk-app] #6642 = #6635 #6498
[mk-quant] #6643 internal_vstd!std_specs.range.impl&__20.spec_is_lt.?_definition 2 #6637 #6642
[attach-var-names] #6643 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6640 not #6634
[mk-app] #6641 or #6640 #6643
[mk-app] #6644 => #6634 #6643
[inst-discovered] theory-solving 0x0 basic# ; #6644
[mk-app] #6645 = #6644 #6641
[instance] 0x0 #6645
[attach-enode] #6645 0
[end-of-instance]
[mk-app] #6644 fuel_bool_default #1137
[mk-app] #6645 fuel_bool #1137
[attach-meaning] #279 arith 16
[mk-app] #6646 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1728 #32 #33
[mk-app] #6647 = #6646 #6504
[attach-meaning] #279 arith 16
[mk-app] #6648 pattern #6646
[mk-quant] #6649 internal_vstd!std_specs.range.impl&__20.spec_steps_between_int.?_definition 2 #6648 #6647
[attach-var-names] #6649 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6650 => #6645 #6649
[mk-app] #6651 not #6645
[mk-app] #6652 or #6651 #6649
[inst-discovered] theory-solving 0x0 basic# ; #6650
[mk-app] #6653 = #6650 #6652
[instance] 0x0 #6653
[attach-enode] #6653 0
[end-of-instance]
[mk-app] #6653 fuel_bool_default #1139
[mk-app] #6654 fuel_bool #1139
[attach-meaning] #279 arith 16
[mk-app] #6655 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1728 #32 #33
[mk-app] #6656 Int
[attach-meaning] #6656 arith 65535
[mk-app] #6657 <= #6518 #6656
[attach-meaning] #279 arith 16
[mk-app] #6658 uClip #279 #6518
[mk-app] #6659 I #6658
[mk-app] #6660 core!option.Option./Some #6659
[mk-app] #6661 if #6657 #6660 #2127
[mk-app] #6662 Poly%core!option.Option. #6661
[mk-app] #6663 = #6655 #6662
[attach-meaning] #279 arith 16
[mk-app] #6664 pattern #6655
[mk-quant] #6665 internal_vstd!std_specs.range.impl&__20.spec_forward_checked_int.?_definition 2 #6664 #6663
[attach-var-names] #6665 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6666 => #6654 #6665
[mk-app] #6667 not #6654
[mk-app] #6668 or #6667 #6665
[inst-discovered] theory-solving 0x0 basic# ; #6666
[mk-app] #6669 = #6666 #6668
[instance] 0x0 #6669
[attach-enode] #6669 0
[end-of-instance]
[mk-app] #6669 fuel_bool_default #1138
[mk-app] #6670 fuel_bool #1138
[attach-meaning] #279 arith 16
[mk-app] #6671 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1728 #32 #33
[attach-meaning] #279 arith 16
[mk-app] #6672 = #6671 #6655
[attach-meaning] #279 arith 16
[mk-app] #6673 pattern #6671
[mk-quant] #6674 internal_vstd!std_specs.range.impl&__20.spec_forward_checked.?_definition 2 #6673 #6672
[attach-var-names] #6674 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6675 => #6670 #6674
[mk-app] #6676 not #6670
[mk-app] #6677 or #6676 #6674
[inst-discovered] theory-solving 0x0 basic# ; #6675
[mk-app] #6678 = #6675 #6677
[instance] 0x0 #6678
[attach-enode] #6678 0
[end-of-instance]
[attach-meaning] #279 arith 16
[mk-app] #6678 tr_bound%core!iter.range.Step. #120 #1728
[attach-meaning] #279 arith 16
[mk-app] #6679 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1728
[mk-app] #6680 fuel_bool #1140
[attach-meaning] #279 arith 16
[mk-app] #6681 TYPE%core!ops.range.Range. #120 #1728
[mk-app] #6682 has_type #33 #6681
[attach-meaning] #279 arith 16
[mk-app] #6683 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1728 #2332 #2344
[mk-app] #6684 %B #6683
[attach-meaning] #279 arith 16
[mk-app] #6685 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1728 #2332 #6557
[mk-app] #6686 %Poly%core!option.Option. #6685
[mk-app] #6687 is-core!option.Option./Some #6686
[attach-meaning] #279 arith 16
[mk-app] #6688 Poly%core!option.Option. #6686
[mk-app] #6689 %Poly%core!option.Option. #6688
[mk-app] #6690 core!option.Option./Some/0 #120 #1728 #6689
[mk-app] #6691 %I #6690
[attach-meaning] #279 arith 16
[mk-app] #6692 vstd!std_specs.range.spec_range_next.? #120 #1728 #33
[mk-app] #6693 I #6691
[mk-app] #6694 core!ops.range.Range./Range #6693 #2344
[mk-app] #6695 Poly%core!ops.range.Range. #6694
[mk-app] #6696 tuple%2./tuple%2 #6695 #6570
[mk-app] #6697 = #6692 #6696
[mk-app] #6698 => #6687 #6697
[mk-app] #6699 => #6684 #6698
[attach-meaning] #279 arith 16
[mk-app] #6700 not #6684
[attach-meaning] #279 arith 16
[mk-app] #6701 = #6692 #6576
[mk-app] #6702 => #6700 #6701
[mk-app] #6703 and #6699 #6702
[mk-app] #6704 => #6682 #6703
[attach-meaning] #279 arith 16
[mk-app] #6705 pattern #6692
[mk-quant] #6706 user_vstd__std_specs__range__axiom_spec_range_next_u16_0 1 #6705 #6704
[attach-var-names] #6706 (|range!| ; |Poly|)
[mk-app] #6707 => #6680 #6706
[mk-app] #6708 is #6686
[inst-discovered] theory-solving 0x0 datatype# ; #6687
[mk-app] #6709 = #6687 #6708
[instance] 0x0 #6709
[attach-enode] #6709 0
[end-of-instance]
[mk-app] #6709 not #6708
[mk-app] #6710 or #6709 #6697
[mk-app] #6711 => #6708 #6697
[inst-discovered] theory-solving 0x0 basic# ; #6711
[mk-app] #6712 = #6711 #6710
[instance] 0x0 #6712
[attach-enode] #6712 0
[end-of-instance]
[mk-app] #6711 or #6700 #6709 #6697
[mk-app] #6712 => #6684 #6710
[inst-discovered] theory-solving 0x0 basic# ; #6712
[mk-app] #6713 = #6712 #6711
[instance] 0x0 #6713
[attach-enode] #6713 0
[end-of-instance]
[mk-app] #6710 or #6684 #6701
[inst-discovered] theory-solving 0x0 basic# ; #6702
[mk-app] #6712 = #6702 #6710
[instance] 0x0 #6712
[attach-enode] #6712 0
[end-of-instance]
[mk-app] #6712 and #6711 #6710
[mk-app] #6713 not #6682
[mk-app] #6714 or #6713 #6712
[mk-app] #6715 => #6682 #6712
[inst-discovered] theory-solving 0x0 basic# ; #6715
[mk-app] #6716 = #6715 #6714
[instance] 0x0 #6716
[attach-enode] #6716 0
[end-of-instance]
[mk-quant] #6715 user_vstd__std_specs__range__axiom_spec_range_next_u16_0 1 #6705 #6714
[attach-var-names] #6715 (|range!| ; |Poly|)
[mk-app] #6716 not #6680
[mk-app] #6717 or #6716 #6715
[mk-app] #6718 => #6680 #6715
[inst-discovered] theory-solving 0x0 basic# ; #6718
[mk-app] #6719 = #6718 #6717
[instance] 0x0 #6719
[attach-enode] #6719 0
[end-of-instance]
[attach-meaning] #270 arith 32
[mk-app] #6718 tr_bound%core!clone.Clone. #120 #1749
[mk-app] #6719 fuel_bool_default #812
[mk-app] #6720 fuel_bool #812
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6721 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1749 #120 #1749
[mk-app] #6722 = #6721 #6282
[mk-app] #6723 => #6720 #6722
[mk-app] #6724 not #6720
[mk-app] #6725 or #6724 #6722
[inst-discovered] theory-solving 0x0 basic# ; #6723
[mk-app] #6726 = #6723 #6725
[instance] 0x0 #6726
[attach-enode] #6726 0
[end-of-instance]
[mk-app] #6726 fuel_bool_default #813
[mk-app] #6727 fuel_bool #813
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6728 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1749 #120 #1749 #32 #33
[mk-app] #6729 = #6728 #6290
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6730 pattern #6728
[mk-quant] #6731 internal_vstd!std_specs.num.u32_specs_tmp.impl&__0.eq_spec.?_definition 2 #6730 #6729
[attach-var-names] #6731 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6732 => #6727 #6731
[mk-app] #6733 not #6727
[mk-app] #6734 or #6733 #6731
[inst-discovered] theory-solving 0x0 basic# ; #6732
[mk-app] #6735 = #6732 #6734
[instance] 0x0 #6735
[attach-enode] #6735 0
[end-of-instance]
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6735 tr_bound%core!cmp.PartialEq. #120 #1749 #120 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6736 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1749 #120 #1749
[mk-app] #6737 fuel_bool_default #814
[mk-app] #6738 fuel_bool #814
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6739 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1749 #120 #1749
[mk-app] #6740 = #6739 #6282
[mk-app] #6741 => #6738 #6740
[mk-app] #6742 not #6738
[mk-app] #6743 or #6742 #6740
[inst-discovered] theory-solving 0x0 basic# ; #6741
[mk-app] #6744 = #6741 #6743
[instance] 0x0 #6744
[attach-enode] #6744 0
[end-of-instance]
[mk-app] #6744 fuel_bool_default #815
[mk-app] #6745 fuel_bool #815
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6746 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1749 #120 #1749 #32 #33
[mk-app] #6747 = #6746 #6439
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6748 pattern #6746
[mk-quant] #6749 internal_vstd!std_specs.num.u32_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6748 #6747
[attach-var-names] #6749 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6750 => #6745 #6749
[mk-app] #6751 <= #186 #676
[mk-app] #6752 not #6751
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #6753 = #6426 #6752
[instance] 0x0 #6753
[attach-enode] #6753 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6751
[mk-app] #6753 = #6751 #6446
[instance] 0x0 #6753
[attach-enode] #6753 0
[end-of-instance]
[mk-app] #6753 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #6754 = #6430 #6753
[instance] 0x0 #6754
[attach-enode] #6754 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6754 * #365 #186
[mk-app] #6755 + #6754 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #6754 = #5258 #5266
[instance] 0x0 #6754
[attach-enode] #6754 0
[end-of-instance]
[mk-app] #6754 not #5266
[mk-app] #6755 if #6754 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #6755
[mk-app] #6756 = #6755 #6450
[instance] 0x0 #6756
[attach-enode] #6756 0
[end-of-instance]
[mk-app] #6755 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #6755
[mk-app] #6756 = #6755 #6451
[instance] 0x0 #6756
[attach-enode] #6756 0
[end-of-instance]
[mk-app] #6755 = #6746 #6452
[mk-quant] #6756 internal_vstd!std_specs.num.u32_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6748 #6755
[attach-var-names] #6756 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6751 not #6745
[mk-app] #6752 or #6751 #6756
[mk-app] #6754 => #6745 #6756
[inst-discovered] theory-solving 0x0 basic# ; #6754
[mk-app] #6753 = #6754 #6752
[instance] 0x0 #6753
[attach-enode] #6753 0
[end-of-instance]
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6754 tr_bound%core!cmp.PartialOrd. #120 #1749 #120 #1749
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #6753 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1749 #120 #1749
[mk-app] #6757 fuel_bool_default #1141
[mk-app] #6758 fuel_bool #1141
[attach-meaning] #270 arith 32
[mk-app] #6759 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1749 #32 #33
[mk-app] #6760 = #6759 #6490
[attach-meaning] #270 arith 32
[mk-app] #6761 pattern #6759
[mk-quant] #6762 internal_vstd!std_specs.range.impl&__21.spec_is_lt.?_definition 2 #6761 #6760
[attach-var-names] #6762 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6763 => #6758 #6762
[mk-app] #6764 <= #186 #676
[mk-app] #6765 not #6764
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #6766 = #6426 #6765
[instance] 0x0 #6766
[attach-enode] #6766 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6764
[mk-app] #6766 = #6764 #6446
[instance] 0x0 #6766
[attach-enode] #6766 0
[end-of-instance]
[mk-app] #6766 = #6759 #6498
[mk-quant] #6767 internal_vstd!std_specs.range.impl&__21.spec_is_lt.?_definition 2 #6761 #6766
[attach-var-names] #6767 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6764 not #6758
[mk-app] #6765 or #6764 #6767
[mk-app] #6768 => #6758 #6767
[inst-discovered] theory-solving 0x0 basic# ; #6768
[mk-app] #6769 = #6768 #6765
[instance] 0x0 #6769
[attach-enode] #6769 0
[end-of-instance]
[mk-app] #6768 fuel_bool_default #1142
[mk-app] #6769 fuel_bool #1142
[attach-meaning] #270 arith 32
[mk-app] #6770 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1749 #32 #33
[mk-app] #6771 = #6770 #6504
[attach-meaning] #270 arith 32
[mk-app] #6772 pattern #6770
[mk-quant] #6773 internal_vstd!std_specs.range.impl&__21.spec_steps_between_int.?_definition 2 #6772 #6771
[attach-var-names] #6773 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6774 => #6769 #6773
[mk-app] #6775 not #6769
[mk-app] #6776 or #6775 #6773
[inst-discovered] theory-solving 0x0 basic# ; #6774
[mk-app] #6777 = #6774 #6776
[instance] 0x0 #6777
[attach-enode] #6777 0
[end-of-instance]
[mk-app] #6777 fuel_bool_default #1144
[mk-app] #6778 fuel_bool #1144
[attach-meaning] #270 arith 32
[mk-app] #6779 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1749 #32 #33
[mk-app] #6780 Int
[attach-meaning] #6780 arith 4294967295
[mk-app] #6781 <= #6518 #6780
[attach-meaning] #270 arith 32
[mk-app] #6782 uClip #270 #6518
[mk-app] #6783 I #6782
[mk-app] #6784 core!option.Option./Some #6783
[mk-app] #6785 if #6781 #6784 #2127
[mk-app] #6786 Poly%core!option.Option. #6785
[mk-app] #6787 = #6779 #6786
[attach-meaning] #270 arith 32
[mk-app] #6788 pattern #6779
[mk-quant] #6789 internal_vstd!std_specs.range.impl&__21.spec_forward_checked_int.?_definition 2 #6788 #6787
[attach-var-names] #6789 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6790 => #6778 #6789
[mk-app] #6791 not #6778
[mk-app] #6792 or #6791 #6789
[inst-discovered] theory-solving 0x0 basic# ; #6790
[mk-app] #6793 = #6790 #6792
[instance] 0x0 #6793
[attach-enode] #6793 0
[end-of-instance]
[mk-app] #6793 fuel_bool_default #1143
[mk-app] #6794 fuel_bool #1143
[attach-meaning] #270 arith 32
[mk-app] #6795 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1749 #32 #33
[attach-meaning] #270 arith 32
[mk-app] #6796 = #6795 #6779
[attach-meaning] #270 arith 32
[mk-app] #6797 pattern #6795
[mk-quant] #6798 internal_vstd!std_specs.range.impl&__21.spec_forward_checked.?_definition 2 #6797 #6796
[attach-var-names] #6798 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6799 => #6794 #6798
[mk-app] #6800 not #6794
[mk-app] #6801 or #6800 #6798
[inst-discovered] theory-solving 0x0 basic# ; #6799
[mk-app] #6802 = #6799 #6801
[instance] 0x0 #6802
[attach-enode] #6802 0
[end-of-instance]
[attach-meaning] #270 arith 32
[mk-app] #6802 tr_bound%core!iter.range.Step. #120 #1749
[attach-meaning] #270 arith 32
[mk-app] #6803 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1749
[mk-app] #6804 fuel_bool #1145
[attach-meaning] #270 arith 32
[mk-app] #6805 TYPE%core!ops.range.Range. #120 #1749
[mk-app] #6806 has_type #33 #6805
[attach-meaning] #270 arith 32
[mk-app] #6807 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1749 #2332 #2344
[mk-app] #6808 %B #6807
[attach-meaning] #270 arith 32
[mk-app] #6809 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1749 #2332 #6557
[mk-app] #6810 %Poly%core!option.Option. #6809
[mk-app] #6811 is-core!option.Option./Some #6810
[attach-meaning] #270 arith 32
[mk-app] #6812 Poly%core!option.Option. #6810
[mk-app] #6813 %Poly%core!option.Option. #6812
[mk-app] #6814 core!option.Option./Some/0 #120 #1749 #6813
[mk-app] #6815 %I #6814
[attach-meaning] #270 arith 32
[mk-app] #6816 vstd!std_specs.range.spec_range_next.? #120 #1749 #33
[mk-app] #6817 I #6815
[mk-app] #6818 core!ops.range.Range./Range #6817 #2344
[mk-app] #6819 Poly%core!ops.range.Range. #6818
[mk-app] #6820 tuple%2./tuple%2 #6819 #6570
[mk-app] #6821 = #6816 #6820
[mk-app] #6822 => #6811 #6821
[mk-app] #6823 => #6808 #6822
[attach-meaning] #270 arith 32
[mk-app] #6824 not #6808
[attach-meaning] #270 arith 32
[mk-app] #6825 = #6816 #6576
[mk-app] #6826 => #6824 #6825
[mk-app] #6827 and #6823 #6826
[mk-app] #6828 => #6806 #6827
[attach-meaning] #270 arith 32
[mk-app] #6829 pattern #6816
[mk-quant] #6830 user_vstd__std_specs__range__axiom_spec_range_next_u32_0 1 #6829 #6828
[attach-var-names] #6830 (|range!| ; |Poly|)
[mk-app] #6831 => #6804 #6830
[mk-app] #6832 is #6810
[inst-discovered] theory-solving 0x0 datatype# ; #6811
[mk-app] #6833 = #6811 #6832
[instance] 0x0 #6833
[attach-enode] #6833 0
[end-of-instance]
[mk-app] #6833 not #6832
[mk-app] #6834 or #6833 #6821
[mk-app] #6835 => #6832 #6821
[inst-discovered] theory-solving 0x0 basic# ; #6835
[mk-app] #6836 = #6835 #6834
[instance] 0x0 #6836
[attach-enode] #6836 0
[end-of-instance]
[mk-app] #6835 or #6824 #6833 #6821
[mk-app] #6836 => #6808 #6834
[inst-discovered] theory-solving 0x0 basic# ; #6836
[mk-app] #6837 = #6836 #6835
[instance] 0x0 #6837
[attach-enode] #6837 0
[end-of-instance]
[mk-app] #6834 or #6808 #6825
[inst-discovered] theory-solving 0x0 basic# ; #6826
[mk-app] #6836 = #6826 #6834
[instance] 0x0 #6836
[attach-enode] #6836 0
[end-of-instance]
[mk-app] #6836 and #6835 #6834
[mk-app] #6837 not #6806
[mk-app] #6838 or #6837 #6836
[mk-app] #6839 => #6806 #6836
[inst-discovered] theory-solving 0x0 basic# ; #6839
[mk-app] #6840 = #6839 #6838
[instance] 0x0 #6840
[attach-enode] #6840 0
[end-of-instance]
[mk-quant] #6839 user_vstd__std_specs__range__axiom_spec_range_next_u32_0 1 #6829 #6838
[attach-var-names] #6839 (|range!| ; |Poly|)
[mk-app] #6840 not #6804
[mk-app] #6841 or #6840 #6839
[mk-app] #6842 => #6804 #6839
[inst-discovered] theory-solving 0x0 basic# ; #6842
[mk-app] #6843 = #6842 #6841
[instance] 0x0 #6843
[attach-enode] #6843 0
[end-of-instance]
[attach-meaning] #272 arith 64
[mk-app] #6842 tr_bound%core!clone.Clone. #120 #1770
[mk-app] #6843 fuel_bool_default #820
[mk-app] #6844 fuel_bool #820
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6845 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1770 #120 #1770
[mk-app] #6846 = #6845 #6282
[mk-app] #6847 => #6844 #6846
[mk-app] #6848 not #6844
[mk-app] #6849 or #6848 #6846
[inst-discovered] theory-solving 0x0 basic# ; #6847
[mk-app] #6850 = #6847 #6849
[instance] 0x0 #6850
[attach-enode] #6850 0
[end-of-instance]
[mk-app] #6850 fuel_bool_default #821
[mk-app] #6851 fuel_bool #821
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6852 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1770 #120 #1770 #32 #33
[mk-app] #6853 = #6852 #6290
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6854 pattern #6852
[mk-quant] #6855 internal_vstd!std_specs.num.u64_specs_tmp.impl&__0.eq_spec.?_definition 2 #6854 #6853
[attach-var-names] #6855 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6856 => #6851 #6855
[mk-app] #6857 not #6851
[mk-app] #6858 or #6857 #6855
[inst-discovered] theory-solving 0x0 basic# ; #6856
[mk-app] #6859 = #6856 #6858
[instance] 0x0 #6859
[attach-enode] #6859 0
[end-of-instance]
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6859 tr_bound%core!cmp.PartialEq. #120 #1770 #120 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6860 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1770 #120 #1770
[mk-app] #6861 fuel_bool_default #822
[mk-app] #6862 fuel_bool #822
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6863 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1770 #120 #1770
[mk-app] #6864 = #6863 #6282
[mk-app] #6865 => #6862 #6864
[mk-app] #6866 not #6862
[mk-app] #6867 or #6866 #6864
[inst-discovered] theory-solving 0x0 basic# ; #6865
[mk-app] #6868 = #6865 #6867
[instance] 0x0 #6868
[attach-enode] #6868 0
[end-of-instance]
[mk-app] #6868 fuel_bool_default #823
[mk-app] #6869 fuel_bool #823
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6870 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1770 #120 #1770 #32 #33
[mk-app] #6871 = #6870 #6439
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6872 pattern #6870
[mk-quant] #6873 internal_vstd!std_specs.num.u64_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6872 #6871
[attach-var-names] #6873 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6874 => #6869 #6873
[mk-app] #6875 <= #186 #676
[mk-app] #6876 not #6875
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #6877 = #6426 #6876
[instance] 0x0 #6877
[attach-enode] #6877 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6875
[mk-app] #6877 = #6875 #6446
[instance] 0x0 #6877
[attach-enode] #6877 0
[end-of-instance]
[mk-app] #6877 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #6878 = #6430 #6877
[instance] 0x0 #6878
[attach-enode] #6878 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #6878 * #365 #186
[mk-app] #6879 + #6878 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #6878 = #5258 #5266
[instance] 0x0 #6878
[attach-enode] #6878 0
[end-of-instance]
[mk-app] #6878 not #5266
[mk-app] #6879 if #6878 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #6879
[mk-app] #6880 = #6879 #6450
[instance] 0x0 #6880
[attach-enode] #6880 0
[end-of-instance]
[mk-app] #6879 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #6879
[mk-app] #6880 = #6879 #6451
[instance] 0x0 #6880
[attach-enode] #6880 0
[end-of-instance]
[mk-app] #6879 = #6870 #6452
[mk-quant] #6880 internal_vstd!std_specs.num.u64_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6872 #6879
[attach-var-names] #6880 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6875 not #6869
[mk-app] #6876 or #6875 #6880
[mk-app] #6878 => #6869 #6880
[inst-discovered] theory-solving 0x0 basic# ; #6878
[mk-app] #6877 = #6878 #6876
[instance] 0x0 #6877
[attach-enode] #6877 0
[end-of-instance]
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6878 tr_bound%core!cmp.PartialOrd. #120 #1770 #120 #1770
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #6877 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1770 #120 #1770
[mk-app] #6881 fuel_bool_default #1146
[mk-app] #6882 fuel_bool #1146
[attach-meaning] #272 arith 64
[mk-app] #6883 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1770 #32 #33
[mk-app] #6884 = #6883 #6490
[attach-meaning] #272 arith 64
[mk-app] #6885 pattern #6883
[mk-quant] #6886 internal_vstd!std_specs.range.impl&__22.spec_is_lt.?_definition 2 #6885 #6884
[attach-var-names] #6886 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6887 => #6882 #6886
[mk-app] #6888 <= #186 #676
[mk-app] #6889 not #6888
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #6890 = #6426 #6889
[instance] 0x0 #6890
[attach-enode] #6890 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6888
[mk-app] #6890 = #6888 #6446
[instance] 0x0 #6890
[attach-enode] #6890 0
[end-of-instance]
[mk-app] #6890 = #6883 #6498
[mk-quant] #6891 internal_vstd!std_specs.range.impl&__22.spec_is_lt.?_definition 2 #6885 #6890
[attach-var-names] #6891 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6888 not #6882
[mk-app] #6889 or #6888 #6891
[mk-app] #6892 => #6882 #6891
[inst-discovered] theory-solving 0x0 basic# ; #6892
[mk-app] #6893 = #6892 #6889
[instance] 0x0 #6893
[attach-enode] #6893 0
[end-of-instance]
[mk-app] #6892 fuel_bool_default #1147
[mk-app] #6893 fuel_bool #1147
[attach-meaning] #272 arith 64
[mk-app] #6894 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1770 #32 #33
[mk-app] #6895 = #6894 #6504
[attach-meaning] #272 arith 64
[mk-app] #6896 pattern #6894
[mk-quant] #6897 internal_vstd!std_specs.range.impl&__22.spec_steps_between_int.?_definition 2 #6896 #6895
[attach-var-names] #6897 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6898 => #6893 #6897
[mk-app] #6899 not #6893
[mk-app] #6900 or #6899 #6897
[inst-discovered] theory-solving 0x0 basic# ; #6898
[mk-app] #6901 = #6898 #6900
[instance] 0x0 #6901
[attach-enode] #6901 0
[end-of-instance]
[mk-app] #6901 fuel_bool_default #1149
[mk-app] #6902 fuel_bool #1149
[attach-meaning] #272 arith 64
[mk-app] #6903 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1770 #32 #33
[mk-app] #6904 Int
[attach-meaning] #6904 arith 18446744073709551615
[mk-app] #6905 <= #6518 #6904
[attach-meaning] #272 arith 64
[mk-app] #6906 uClip #272 #6518
[mk-app] #6907 I #6906
[mk-app] #6908 core!option.Option./Some #6907
[mk-app] #6909 if #6905 #6908 #2127
[mk-app] #6910 Poly%core!option.Option. #6909
[mk-app] #6911 = #6903 #6910
[attach-meaning] #272 arith 64
[mk-app] #6912 pattern #6903
[mk-quant] #6913 internal_vstd!std_specs.range.impl&__22.spec_forward_checked_int.?_definition 2 #6912 #6911
[attach-var-names] #6913 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6914 => #6902 #6913
[mk-app] #6915 not #6902
[mk-app] #6916 or #6915 #6913
[inst-discovered] theory-solving 0x0 basic# ; #6914
[mk-app] #6917 = #6914 #6916
[instance] 0x0 #6917
[attach-enode] #6917 0
[end-of-instance]
[mk-app] #6917 fuel_bool_default #1148
[mk-app] #6918 fuel_bool #1148
[attach-meaning] #272 arith 64
[mk-app] #6919 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1770 #32 #33
[attach-meaning] #272 arith 64
[mk-app] #6920 = #6919 #6903
[attach-meaning] #272 arith 64
[mk-app] #6921 pattern #6919
[mk-quant] #6922 internal_vstd!std_specs.range.impl&__22.spec_forward_checked.?_definition 2 #6921 #6920
[attach-var-names] #6922 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6923 => #6918 #6922
[mk-app] #6924 not #6918
[mk-app] #6925 or #6924 #6922
[inst-discovered] theory-solving 0x0 basic# ; #6923
[mk-app] #6926 = #6923 #6925
[instance] 0x0 #6926
[attach-enode] #6926 0
[end-of-instance]
[attach-meaning] #272 arith 64
[mk-app] #6926 tr_bound%core!iter.range.Step. #120 #1770
[attach-meaning] #272 arith 64
[mk-app] #6927 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1770
[mk-app] #6928 fuel_bool #1150
[attach-meaning] #272 arith 64
[mk-app] #6929 TYPE%core!ops.range.Range. #120 #1770
[mk-app] #6930 has_type #33 #6929
[attach-meaning] #272 arith 64
[mk-app] #6931 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1770 #2332 #2344
[mk-app] #6932 %B #6931
[attach-meaning] #272 arith 64
[mk-app] #6933 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1770 #2332 #6557
[mk-app] #6934 %Poly%core!option.Option. #6933
[mk-app] #6935 is-core!option.Option./Some #6934
[attach-meaning] #272 arith 64
[mk-app] #6936 Poly%core!option.Option. #6934
[mk-app] #6937 %Poly%core!option.Option. #6936
[mk-app] #6938 core!option.Option./Some/0 #120 #1770 #6937
[mk-app] #6939 %I #6938
[attach-meaning] #272 arith 64
[mk-app] #6940 vstd!std_specs.range.spec_range_next.? #120 #1770 #33
[mk-app] #6941 I #6939
[mk-app] #6942 core!ops.range.Range./Range #6941 #2344
[mk-app] #6943 Poly%core!ops.range.Range. #6942
[mk-app] #6944 tuple%2./tuple%2 #6943 #6570
[mk-app] #6945 = #6940 #6944
[mk-app] #6946 => #6935 #6945
[mk-app] #6947 => #6932 #6946
[attach-meaning] #272 arith 64
[mk-app] #6948 not #6932
[attach-meaning] #272 arith 64
[mk-app] #6949 = #6940 #6576
[mk-app] #6950 => #6948 #6949
[mk-app] #6951 and #6947 #6950
[mk-app] #6952 => #6930 #6951
[attach-meaning] #272 arith 64
[mk-app] #6953 pattern #6940
[mk-quant] #6954 user_vstd__std_specs__range__axiom_spec_range_next_u64_0 1 #6953 #6952
[attach-var-names] #6954 (|range!| ; |Poly|)
[mk-app] #6955 => #6928 #6954
[mk-app] #6956 is #6934
[inst-discovered] theory-solving 0x0 datatype# ; #6935
[mk-app] #6957 = #6935 #6956
[instance] 0x0 #6957
[attach-enode] #6957 0
[end-of-instance]
[mk-app] #6957 not #6956
[mk-app] #6958 or #6957 #6945
[mk-app] #6959 => #6956 #6945
[inst-discovered] theory-solving 0x0 basic# ; #6959
[mk-app] #6960 = #6959 #6958
[instance] 0x0 #6960
[attach-enode] #6960 0
[end-of-instance]
[mk-app] #6959 or #6948 #6957 #6945
[mk-app] #6960 => #6932 #6958
[inst-discovered] theory-solving 0x0 basic# ; #6960
[mk-app] #6961 = #6960 #6959
[instance] 0x0 #6961
[attach-enode] #6961 0
[end-of-instance]
[mk-app] #6958 or #6932 #6949
[inst-discovered] theory-solving 0x0 basic# ; #6950
[mk-app] #6960 = #6950 #6958
[instance] 0x0 #6960
[attach-enode] #6960 0
[end-of-instance]
[mk-app] #6960 and #6959 #6958
[mk-app] #6961 not #6930
[mk-app] #6962 or #6961 #6960
[mk-app] #6963 => #6930 #6960
[inst-discovered] theory-solving 0x0 basic# ; #6963
[mk-app] #6964 = #6963 #6962
[instance] 0x0 #6964
[attach-enode] #6964 0
[end-of-instance]
[mk-quant] #6963 user_vstd__std_specs__range__axiom_spec_range_next_u64_0 1 #6953 #6962
[attach-var-names] #6963 (|range!| ; |Poly|)
[mk-app] #6964 not #6928
[mk-app] #6965 or #6964 #6963
[mk-app] #6966 => #6928 #6963
[inst-discovered] theory-solving 0x0 basic# ; #6966
[mk-app] #6967 = #6966 #6965
[instance] 0x0 #6967
[attach-enode] #6967 0
[end-of-instance]
[attach-meaning] #289 arith 128
[mk-app] #6966 tr_bound%core!clone.Clone. #120 #1791
[mk-app] #6967 fuel_bool_default #828
[mk-app] #6968 fuel_bool #828
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #6969 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1791 #120 #1791
[mk-app] #6970 = #6969 #6282
[mk-app] #6971 => #6968 #6970
[mk-app] #6972 not #6968
[mk-app] #6973 or #6972 #6970
[inst-discovered] theory-solving 0x0 basic# ; #6971
[mk-app] #6974 = #6971 #6973
[instance] 0x0 #6974
[attach-enode] #6974 0
[end-of-instance]
[mk-app] #6974 fuel_bool_default #829
[mk-app] #6975 fuel_bool #829
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #6976 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1791 #120 #1791 #32 #33
[mk-app] #6977 = #6976 #6290
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #6978 pattern #6976
[mk-quant] #6979 internal_vstd!std_specs.num.u128_specs_tmp.impl&__0.eq_spec.?_definition 2 #6978 #6977
[attach-var-names] #6979 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6980 => #6975 #6979
[mk-app] #6981 not #6975
[mk-app] #6982 or #6981 #6979
[inst-discovered] theory-solving 0x0 basic# ; #6980
[mk-app] #6983 = #6980 #6982
[instance] 0x0 #6983
[attach-enode] #6983 0
[end-of-instance]
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #6983 tr_bound%core!cmp.PartialEq. #120 #1791 #120 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #6984 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1791 #120 #1791
[mk-app] #6985 fuel_bool_default #830
[mk-app] #6986 fuel_bool #830
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #6987 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1791 #120 #1791
[mk-app] #6988 = #6987 #6282
[mk-app] #6989 => #6986 #6988
[mk-app] #6990 not #6986
[mk-app] #6991 or #6990 #6988
[inst-discovered] theory-solving 0x0 basic# ; #6989
[mk-app] #6992 = #6989 #6991
[instance] 0x0 #6992
[attach-enode] #6992 0
[end-of-instance]
[mk-app] #6992 fuel_bool_default #831
[mk-app] #6993 fuel_bool #831
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #6994 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1791 #120 #1791 #32 #33
[mk-app] #6995 = #6994 #6439
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #6996 pattern #6994
[mk-quant] #6997 internal_vstd!std_specs.num.u128_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6996 #6995
[attach-var-names] #6997 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6998 => #6993 #6997
[mk-app] #6999 <= #186 #676
[mk-app] #7000 not #6999
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7001 = #6426 #7000
[instance] 0x0 #7001
[attach-enode] #7001 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6999
[mk-app] #7001 = #6999 #6446
[instance] 0x0 #7001
[attach-enode] #7001 0
[end-of-instance]
[mk-app] #7001 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #7002 = #6430 #7001
[instance] 0x0 #7002
[attach-enode] #7002 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7002 * #365 #186
[mk-app] #7003 + #7002 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #7002 = #5258 #5266
[instance] 0x0 #7002
[attach-enode] #7002 0
[end-of-instance]
[mk-app] #7002 not #5266
[mk-app] #7003 if #7002 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #7003
[mk-app] #7004 = #7003 #6450
[instance] 0x0 #7004
[attach-enode] #7004 0
[end-of-instance]
[mk-app] #7003 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #7003
[mk-app] #7004 = #7003 #6451
[instance] 0x0 #7004
[attach-enode] #7004 0
[end-of-instance]
[mk-app] #7003 = #6994 #6452
[mk-quant] #7004 internal_vstd!std_specs.num.u128_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #6996 #7003
[attach-var-names] #7004 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #6999 not #6993
[mk-app] #7000 or #6999 #7004
[mk-app] #7002 => #6993 #7004
[inst-discovered] theory-solving 0x0 basic# ; #7002
[mk-app] #7001 = #7002 #7000
[instance] 0x0 #7001
[attach-enode] #7001 0
[end-of-instance]
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7002 tr_bound%core!cmp.PartialOrd. #120 #1791 #120 #1791
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7001 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1791 #120 #1791
[mk-app] #7005 fuel_bool_default #1151
[mk-app] #7006 fuel_bool #1151
[attach-meaning] #289 arith 128
[mk-app] #7007 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1791 #32 #33
[mk-app] #7008 = #7007 #6490
[attach-meaning] #289 arith 128
[mk-app] #7009 pattern #7007
[mk-quant] #7010 internal_vstd!std_specs.range.impl&__23.spec_is_lt.?_definition 2 #7009 #7008
[attach-var-names] #7010 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7011 => #7006 #7010
[mk-app] #7012 <= #186 #676
[mk-app] #7013 not #7012
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7014 = #6426 #7013
[instance] 0x0 #7014
[attach-enode] #7014 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7012
[mk-app] #7014 = #7012 #6446
[instance] 0x0 #7014
[attach-enode] #7014 0
[end-of-instance]
[mk-app] #7014 = #7007 #6498
[mk-quant] #7015 internal_vstd!std_specs.range.impl&__23.spec_is_lt.?_definition 2 #7009 #7014
[attach-var-names] #7015 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7012 not #7006
[mk-app] #7013 or #7012 #7015
[mk-app] #7016 => #7006 #7015
[inst-discovered] theory-solving 0x0 basic# ; #7016
[mk-app] #7017 = #7016 #7013
[instance] 0x0 #7017
[attach-enode] #7017 0
[end-of-instance]
[mk-app] #7016 fuel_bool_default #1152
[mk-app] #7017 fuel_bool #1152
[attach-meaning] #289 arith 128
[mk-app] #7018 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1791 #32 #33
[mk-app] #7019 = #7018 #6504
[attach-meaning] #289 arith 128
[mk-app] #7020 pattern #7018
[mk-quant] #7021 internal_vstd!std_specs.range.impl&__23.spec_steps_between_int.?_definition 2 #7020 #7019
[attach-var-names] #7021 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7022 => #7017 #7021
[mk-app] #7023 not #7017
[mk-app] #7024 or #7023 #7021
[inst-discovered] theory-solving 0x0 basic# ; #7022
[mk-app] #7025 = #7022 #7024
[instance] 0x0 #7025
[attach-enode] #7025 0
[end-of-instance]
[mk-app] #7025 fuel_bool_default #1154
[mk-app] #7026 fuel_bool #1154
[attach-meaning] #289 arith 128
[mk-app] #7027 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1791 #32 #33
[attach-meaning] #292 arith 340282366920938463463374607431768211455
[mk-app] #7028 <= #6518 #292
[attach-meaning] #289 arith 128
[mk-app] #7029 uClip #289 #6518
[mk-app] #7030 I #7029
[mk-app] #7031 core!option.Option./Some #7030
[mk-app] #7032 if #7028 #7031 #2127
[mk-app] #7033 Poly%core!option.Option. #7032
[mk-app] #7034 = #7027 #7033
[attach-meaning] #289 arith 128
[mk-app] #7035 pattern #7027
[mk-quant] #7036 internal_vstd!std_specs.range.impl&__23.spec_forward_checked_int.?_definition 2 #7035 #7034
[attach-var-names] #7036 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7037 => #7026 #7036
[mk-app] #7038 not #7026
[mk-app] #7039 or #7038 #7036
[inst-discovered] theory-solving 0x0 basic# ; #7037
[mk-app] #7040 = #7037 #7039
[instance] 0x0 #7040
[attach-enode] #7040 0
[end-of-instance]
[mk-app] #7040 fuel_bool_default #1153
[mk-app] #7041 fuel_bool #1153
[attach-meaning] #289 arith 128
[mk-app] #7042 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1791 #32 #33
[attach-meaning] #289 arith 128
[mk-app] #7043 = #7042 #7027
[attach-meaning] #289 arith 128
[mk-app] #7044 pattern #7042
[mk-quant] #7045 internal_vstd!std_specs.range.impl&__23.spec_forward_checked.?_definition 2 #7044 #7043
[attach-var-names] #7045 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7046 => #7041 #7045
[mk-app] #7047 not #7041
[mk-app] #7048 or #7047 #7045
[inst-discovered] theory-solving 0x0 basic# ; #7046
[mk-app] #7049 = #7046 #7048
[instance] 0x0 #7049
[attach-enode] #7049 0
[end-of-instance]
[attach-meaning] #289 arith 128
[mk-app] #7049 tr_bound%core!iter.range.Step. #120 #1791
[attach-meaning] #289 arith 128
[mk-app] #7050 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1791
[mk-app] #7051 fuel_bool #1155
[attach-meaning] #289 arith 128
[mk-app] #7052 TYPE%core!ops.range.Range. #120 #1791
[mk-app] #7053 has_type #33 #7052
[attach-meaning] #289 arith 128
[mk-app] #7054 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1791 #2332 #2344
[mk-app] #7055 %B #7054
[attach-meaning] #289 arith 128
[mk-app] #7056 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1791 #2332 #6557
[mk-app] #7057 %Poly%core!option.Option. #7056
[mk-app] #7058 is-core!option.Option./Some #7057
[attach-meaning] #289 arith 128
[mk-app] #7059 Poly%core!option.Option. #7057
[mk-app] #7060 %Poly%core!option.Option. #7059
[mk-app] #7061 core!option.Option./Some/0 #120 #1791 #7060
[mk-app] #7062 %I #7061
[attach-meaning] #289 arith 128
[mk-app] #7063 vstd!std_specs.range.spec_range_next.? #120 #1791 #33
[mk-app] #7064 I #7062
[mk-app] #7065 core!ops.range.Range./Range #7064 #2344
[mk-app] #7066 Poly%core!ops.range.Range. #7065
[mk-app] #7067 tuple%2./tuple%2 #7066 #6570
[mk-app] #7068 = #7063 #7067
[mk-app] #7069 => #7058 #7068
[mk-app] #7070 => #7055 #7069
[attach-meaning] #289 arith 128
[mk-app] #7071 not #7055
[attach-meaning] #289 arith 128
[mk-app] #7072 = #7063 #6576
[mk-app] #7073 => #7071 #7072
[mk-app] #7074 and #7070 #7073
[mk-app] #7075 => #7053 #7074
[attach-meaning] #289 arith 128
[mk-app] #7076 pattern #7063
[mk-quant] #7077 user_vstd__std_specs__range__axiom_spec_range_next_u128_0 1 #7076 #7075
[attach-var-names] #7077 (|range!| ; |Poly|)
[mk-app] #7078 => #7051 #7077
[mk-app] #7079 is #7057
[inst-discovered] theory-solving 0x0 datatype# ; #7058
[mk-app] #7080 = #7058 #7079
[instance] 0x0 #7080
[attach-enode] #7080 0
[end-of-instance]
[mk-app] #7080 not #7079
[mk-app] #7081 or #7080 #7068
[mk-app] #7082 => #7079 #7068
[inst-discovered] theory-solving 0x0 basic# ; #7082
[mk-app] #7083 = #7082 #7081
[instance] 0x0 #7083
[attach-enode] #7083 0
[end-of-instance]
[mk-app] #7082 or #7071 #7080 #7068
[mk-app] #7083 => #7055 #7081
[inst-discovered] theory-solving 0x0 basic# ; #7083
[mk-app] #7084 = #7083 #7082
[instance] 0x0 #7084
[attach-enode] #7084 0
[end-of-instance]
[mk-app] #7081 or #7055 #7072
[inst-discovered] theory-solving 0x0 basic# ; #7073
[mk-app] #7083 = #7073 #7081
[instance] 0x0 #7083
[attach-enode] #7083 0
[end-of-instance]
[mk-app] #7083 and #7082 #7081
[mk-app] #7084 not #7053
[mk-app] #7085 or #7084 #7083
[mk-app] #7086 => #7053 #7083
[inst-discovered] theory-solving 0x0 basic# ; #7086
[mk-app] #7087 = #7086 #7085
[instance] 0x0 #7087
[attach-enode] #7087 0
[end-of-instance]
[mk-quant] #7086 user_vstd__std_specs__range__axiom_spec_range_next_u128_0 1 #7076 #7085
[attach-var-names] #7086 (|range!| ; |Poly|)
[mk-app] #7087 not #7051
[mk-app] #7088 or #7087 #7086
[mk-app] #7089 => #7051 #7086
[inst-discovered] theory-solving 0x0 basic# ; #7089
[mk-app] #7090 = #7089 #7088
[instance] 0x0 #7090
[attach-enode] #7090 0
[end-of-instance]
[mk-app] #7089 tr_bound%core!clone.Clone. #120 #203
[mk-app] #7090 fuel_bool_default #836
[mk-app] #7091 fuel_bool #836
[mk-app] #7092 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #203 #120 #203
[mk-app] #7093 = #7092 #6282
[mk-app] #7094 => #7091 #7093
[mk-app] #7095 not #7091
[mk-app] #7096 or #7095 #7093
[inst-discovered] theory-solving 0x0 basic# ; #7094
[mk-app] #7097 = #7094 #7096
[instance] 0x0 #7097
[attach-enode] #7097 0
[end-of-instance]
[mk-app] #7097 fuel_bool_default #837
[mk-app] #7098 fuel_bool #837
[mk-app] #7099 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #203 #120 #203 #32 #33
[mk-app] #7100 = #7099 #6290
[mk-app] #7101 pattern #7099
[mk-quant] #7102 internal_vstd!std_specs.num.usize_specs_tmp.impl&__0.eq_spec.?_definition 2 #7101 #7100
[attach-var-names] #7102 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7103 => #7098 #7102
[mk-app] #7104 not #7098
[mk-app] #7105 or #7104 #7102
[inst-discovered] theory-solving 0x0 basic# ; #7103
[mk-app] #7106 = #7103 #7105
[instance] 0x0 #7106
[attach-enode] #7106 0
[end-of-instance]
[mk-app] #7106 tr_bound%core!cmp.PartialEq. #120 #203 #120 #203
[mk-app] #7107 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #203 #120 #203
[mk-app] #7108 fuel_bool_default #838
[mk-app] #7109 fuel_bool #838
[mk-app] #7110 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #203 #120 #203
[mk-app] #7111 = #7110 #6282
[mk-app] #7112 => #7109 #7111
[mk-app] #7113 not #7109
[mk-app] #7114 or #7113 #7111
[inst-discovered] theory-solving 0x0 basic# ; #7112
[mk-app] #7115 = #7112 #7114
[instance] 0x0 #7115
[attach-enode] #7115 0
[end-of-instance]
[mk-app] #7115 fuel_bool_default #839
[mk-app] #7116 fuel_bool #839
[mk-app] #7117 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #203 #120 #203 #32 #33
[mk-app] #7118 = #7117 #6439
[mk-app] #7119 pattern #7117
[mk-quant] #7120 internal_vstd!std_specs.num.usize_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7119 #7118
[attach-var-names] #7120 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7121 => #7116 #7120
[mk-app] #7122 <= #186 #676
[mk-app] #7123 not #7122
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7124 = #6426 #7123
[instance] 0x0 #7124
[attach-enode] #7124 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7122
[mk-app] #7124 = #7122 #6446
[instance] 0x0 #7124
[attach-enode] #7124 0
[end-of-instance]
[mk-app] #7124 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #7125 = #6430 #7124
[instance] 0x0 #7125
[attach-enode] #7125 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7125 * #365 #186
[mk-app] #7126 + #7125 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #7125 = #5258 #5266
[instance] 0x0 #7125
[attach-enode] #7125 0
[end-of-instance]
[mk-app] #7125 not #5266
[mk-app] #7126 if #7125 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #7126
[mk-app] #7127 = #7126 #6450
[instance] 0x0 #7127
[attach-enode] #7127 0
[end-of-instance]
[mk-app] #7126 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #7126
[mk-app] #7127 = #7126 #6451
[instance] 0x0 #7127
[attach-enode] #7127 0
[end-of-instance]
[mk-app] #7126 = #7117 #6452
[mk-quant] #7127 internal_vstd!std_specs.num.usize_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7119 #7126
[attach-var-names] #7127 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7122 not #7116
[mk-app] #7123 or #7122 #7127
[mk-app] #7125 => #7116 #7127
[inst-discovered] theory-solving 0x0 basic# ; #7125
[mk-app] #7124 = #7125 #7123
[instance] 0x0 #7124
[attach-enode] #7124 0
[end-of-instance]
[mk-app] #7125 tr_bound%core!cmp.PartialOrd. #120 #203 #120 #203
[mk-app] #7124 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #203 #120 #203
[mk-app] #7128 fuel_bool_default #1156
[mk-app] #7129 fuel_bool #1156
[mk-app] #7130 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #203 #32 #33
[mk-app] #7131 = #7130 #6490
[mk-app] #7132 pattern #7130
[mk-quant] #7133 internal_vstd!std_specs.range.impl&__24.spec_is_lt.?_definition 2 #7132 #7131
[attach-var-names] #7133 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7134 => #7129 #7133
[mk-app] #7135 <= #186 #676
[mk-app] #7136 not #7135
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7137 = #6426 #7136
[instance] 0x0 #7137
[attach-enode] #7137 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7135
[mk-app] #7137 = #7135 #6446
[instance] 0x0 #7137
[attach-enode] #7137 0
[end-of-instance]
[mk-app] #7137 = #7130 #6498
[mk-quant] #7138 internal_vstd!std_specs.range.impl&__24.spec_is_lt.?_definition 2 #7132 #7137
[attach-var-names] #7138 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7135 not #7129
[mk-app] #7136 or #7135 #7138
[mk-app] #7139 => #7129 #7138
[inst-discovered] theory-solving 0x0 basic# ; #7139
[mk-app] #7140 = #7139 #7136
[instance] 0x0 #7140
[attach-enode] #7140 0
[end-of-instance]
[mk-app] #7139 fuel_bool_default #1157
[mk-app] #7140 fuel_bool #1157
[mk-app] #7141 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #203 #32 #33
[mk-app] #7142 = #7141 #6504
[mk-app] #7143 pattern #7141
[mk-quant] #7144 internal_vstd!std_specs.range.impl&__24.spec_steps_between_int.?_definition 2 #7143 #7142
[attach-var-names] #7144 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7145 => #7140 #7144
[mk-app] #7146 not #7140
[mk-app] #7147 or #7146 #7144
[inst-discovered] theory-solving 0x0 basic# ; #7145
[mk-app] #7148 = #7145 #7147
[instance] 0x0 #7148
[attach-enode] #7148 0
[end-of-instance]
[mk-app] #7148 fuel_bool_default #1159
[mk-app] #7149 fuel_bool #1159
[mk-app] #7150 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #203 #32 #33
[mk-app] #7151 uHi #269
[mk-app] #7152 - #7151 #291
[mk-app] #7153 <= #6518 #7152
[mk-app] #7154 uClip #269 #6518
[mk-app] #7155 I #7154
[mk-app] #7156 core!option.Option./Some #7155
[mk-app] #7157 if #7153 #7156 #2127
[mk-app] #7158 Poly%core!option.Option. #7157
[mk-app] #7159 = #7150 #7158
[mk-app] #7160 pattern #7150
[mk-quant] #7161 internal_vstd!std_specs.range.impl&__24.spec_forward_checked_int.?_definition 2 #7160 #7159
[attach-var-names] #7161 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7162 => #7149 #7161
[attach-meaning] #365 arith (- 1)
[mk-app] #7163 * #365 #291
[mk-app] #7164 + #7151 #7163
[inst-discovered] theory-solving 0x0 arith# ; #7152
[mk-app] #7165 = #7152 #7164
[instance] 0x0 #7165
[attach-enode] #7165 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7163
[mk-app] #7165 = #7163 #365
[instance] 0x0 #7165
[attach-enode] #7165 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7165 + #365 #7151
[mk-app] #7166 + #7151 #365
[inst-discovered] theory-solving 0x0 arith# ; #7166
[mk-app] #7167 = #7166 #7165
[instance] 0x0 #7167
[attach-enode] #7167 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7166 * #365 #7151
[attach-meaning] #365 arith (- 1)
[mk-app] #7167 + #6518 #7166
[mk-app] #7168 <= #7167 #365
[mk-app] #7169 <= #6518 #7165
[inst-discovered] theory-solving 0x0 arith# ; #7169
[mk-app] #7170 = #7169 #7168
[instance] 0x0 #7170
[attach-enode] #7170 0
[end-of-instance]
[mk-app] #7169 if #7168 #7156 #2127
[mk-app] #7170 Poly%core!option.Option. #7169
[mk-app] #7171 = #7150 #7170
[mk-quant] #7172 internal_vstd!std_specs.range.impl&__24.spec_forward_checked_int.?_definition 2 #7160 #7171
[attach-var-names] #7172 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7165 not #7149
[mk-app] #7163 or #7165 #7172
[mk-app] #7164 => #7149 #7172
[inst-discovered] theory-solving 0x0 basic# ; #7164
[mk-app] #7173 = #7164 #7163
[instance] 0x0 #7173
[attach-enode] #7173 0
[end-of-instance]
[mk-app] #7164 fuel_bool_default #1158
[mk-app] #7173 fuel_bool #1158
[mk-app] #7174 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #203 #32 #33
[mk-app] #7175 = #7174 #7150
[mk-app] #7176 pattern #7174
[mk-quant] #7177 internal_vstd!std_specs.range.impl&__24.spec_forward_checked.?_definition 2 #7176 #7175
[attach-var-names] #7177 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7178 => #7173 #7177
[mk-app] #7179 not #7173
[mk-app] #7180 or #7179 #7177
[inst-discovered] theory-solving 0x0 basic# ; #7178
[mk-app] #7181 = #7178 #7180
[instance] 0x0 #7181
[attach-enode] #7181 0
[end-of-instance]
[mk-app] #7181 tr_bound%core!iter.range.Step. #120 #203
[mk-app] #7182 tr_bound%vstd!std_specs.iter.StepSpec. #120 #203
[mk-app] #7183 fuel_bool #1160
[mk-app] #7184 has_type #33 #1665
[mk-app] #7185 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #203 #2332 #2344
[mk-app] #7186 %B #7185
[mk-app] #7187 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #203 #2332 #6557
[mk-app] #7188 %Poly%core!option.Option. #7187
[mk-app] #7189 is-core!option.Option./Some #7188
[mk-app] #7190 Poly%core!option.Option. #7188
[mk-app] #7191 %Poly%core!option.Option. #7190
[mk-app] #7192 core!option.Option./Some/0 #120 #203 #7191
[mk-app] #7193 %I #7192
[mk-app] #7194 vstd!std_specs.range.spec_range_next.? #120 #203 #33
[mk-app] #7195 I #7193
[mk-app] #7196 core!ops.range.Range./Range #7195 #2344
[mk-app] #7197 Poly%core!ops.range.Range. #7196
[mk-app] #7198 tuple%2./tuple%2 #7197 #6570
[mk-app] #7199 = #7194 #7198
[mk-app] #7200 => #7189 #7199
[mk-app] #7201 => #7186 #7200
[mk-app] #7202 not #7186
[mk-app] #7203 = #7194 #6576
[mk-app] #7204 => #7202 #7203
[mk-app] #7205 and #7201 #7204
[mk-app] #7206 => #7184 #7205
[mk-app] #7207 pattern #7194
[mk-quant] #7208 user_vstd__std_specs__range__axiom_spec_range_next_usize_0 1 #7207 #7206
[attach-var-names] #7208 (|range!| ; |Poly|)
[mk-app] #7209 => #7183 #7208
[mk-app] #7210 is #7188
[inst-discovered] theory-solving 0x0 datatype# ; #7189
[mk-app] #7211 = #7189 #7210
[instance] 0x0 #7211
[attach-enode] #7211 0
[end-of-instance]
[mk-app] #7211 not #7210
[mk-app] #7212 or #7211 #7199
[mk-app] #7213 => #7210 #7199
[inst-discovered] theory-solving 0x0 basic# ; #7213
[mk-app] #7214 = #7213 #7212
[instance] 0x0 #7214
[attach-enode] #7214 0
[end-of-instance]
[mk-app] #7213 or #7202 #7211 #7199
[mk-app] #7214 => #7186 #7212
[inst-discovered] theory-solving 0x0 basic# ; #7214
[mk-app] #7215 = #7214 #7213
[instance] 0x0 #7215
[attach-enode] #7215 0
[end-of-instance]
[mk-app] #7212 or #7186 #7203
[inst-discovered] theory-solving 0x0 basic# ; #7204
[mk-app] #7214 = #7204 #7212
[instance] 0x0 #7214
[attach-enode] #7214 0
[end-of-instance]
[mk-app] #7214 and #7213 #7212
[mk-app] #7215 not #7184
[mk-app] #7216 or #7215 #7214
[mk-app] #7217 => #7184 #7214
[inst-discovered] theory-solving 0x0 basic# ; #7217
[mk-app] #7218 = #7217 #7216
[instance] 0x0 #7218
[attach-enode] #7218 0
[end-of-instance]
[mk-quant] #7217 user_vstd__std_specs__range__axiom_spec_range_next_usize_0 1 #7207 #7216
[attach-var-names] #7217 (|range!| ; |Poly|)
[mk-app] #7218 not #7183
[mk-app] #7219 or #7218 #7217
[mk-app] #7220 => #7183 #7217
[inst-discovered] theory-solving 0x0 basic# ; #7220
[mk-app] #7221 = #7220 #7219
[instance] 0x0 #7221
[attach-enode] #7221 0
[end-of-instance]
[mk-app] #7220 tr_bound%core!clone.Clone. #120 #1812
[mk-app] #7221 fuel_bool_default #800
[mk-app] #7222 fuel_bool #800
[mk-app] #7223 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1812 #120 #1812
[mk-app] #7224 = #7223 #6282
[mk-app] #7225 => #7222 #7224
[mk-app] #7226 not #7222
[mk-app] #7227 or #7226 #7224
[inst-discovered] theory-solving 0x0 basic# ; #7225
[mk-app] #7228 = #7225 #7227
[instance] 0x0 #7228
[attach-enode] #7228 0
[end-of-instance]
[mk-app] #7228 fuel_bool_default #801
[mk-app] #7229 fuel_bool #801
[mk-app] #7230 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1812 #120 #1812 #32 #33
[mk-app] #7231 = #7230 #6290
[mk-app] #7232 pattern #7230
[mk-quant] #7233 internal_vstd!std_specs.num.i8_specs_tmp.impl&__0.eq_spec.?_definition 2 #7232 #7231
[attach-var-names] #7233 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7234 => #7229 #7233
[mk-app] #7235 not #7229
[mk-app] #7236 or #7235 #7233
[inst-discovered] theory-solving 0x0 basic# ; #7234
[mk-app] #7237 = #7234 #7236
[instance] 0x0 #7237
[attach-enode] #7237 0
[end-of-instance]
[mk-app] #7237 tr_bound%core!cmp.PartialEq. #120 #1812 #120 #1812
[mk-app] #7238 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1812 #120 #1812
[mk-app] #7239 fuel_bool_default #802
[mk-app] #7240 fuel_bool #802
[mk-app] #7241 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1812 #120 #1812
[mk-app] #7242 = #7241 #6282
[mk-app] #7243 => #7240 #7242
[mk-app] #7244 not #7240
[mk-app] #7245 or #7244 #7242
[inst-discovered] theory-solving 0x0 basic# ; #7243
[mk-app] #7246 = #7243 #7245
[instance] 0x0 #7246
[attach-enode] #7246 0
[end-of-instance]
[mk-app] #7246 fuel_bool_default #803
[mk-app] #7247 fuel_bool #803
[mk-app] #7248 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1812 #120 #1812 #32 #33
[mk-app] #7249 = #7248 #6439
[mk-app] #7250 pattern #7248
[mk-quant] #7251 internal_vstd!std_specs.num.i8_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7250 #7249
[attach-var-names] #7251 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7252 => #7247 #7251
[mk-app] #7253 <= #186 #676
[mk-app] #7254 not #7253
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7255 = #6426 #7254
[instance] 0x0 #7255
[attach-enode] #7255 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7253
[mk-app] #7255 = #7253 #6446
[instance] 0x0 #7255
[attach-enode] #7255 0
[end-of-instance]
[mk-app] #7255 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #7256 = #6430 #7255
[instance] 0x0 #7256
[attach-enode] #7256 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7256 * #365 #186
[mk-app] #7257 + #7256 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #7256 = #5258 #5266
[instance] 0x0 #7256
[attach-enode] #7256 0
[end-of-instance]
[mk-app] #7256 not #5266
[mk-app] #7257 if #7256 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #7257
[mk-app] #7258 = #7257 #6450
[instance] 0x0 #7258
[attach-enode] #7258 0
[end-of-instance]
[mk-app] #7257 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #7257
[mk-app] #7258 = #7257 #6451
[instance] 0x0 #7258
[attach-enode] #7258 0
[end-of-instance]
[mk-app] #7257 = #7248 #6452
[mk-quant] #7258 internal_vstd!std_specs.num.i8_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7250 #7257
[attach-var-names] #7258 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7253 not #7247
[mk-app] #7254 or #7253 #7258
[mk-app] #7256 => #7247 #7258
[inst-discovered] theory-solving 0x0 basic# ; #7256
[mk-app] #7255 = #7256 #7254
[instance] 0x0 #7255
[attach-enode] #7255 0
[end-of-instance]
[mk-app] #7256 tr_bound%core!cmp.PartialOrd. #120 #1812 #120 #1812
[mk-app] #7255 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1812 #120 #1812
[mk-app] #7259 fuel_bool_default #1161
[mk-app] #7260 fuel_bool #1161
[mk-app] #7261 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1812 #32 #33
[mk-app] #7262 = #7261 #6490
[mk-app] #7263 pattern #7261
[mk-quant] #7264 internal_vstd!std_specs.range.impl&__25.spec_is_lt.?_definition 2 #7263 #7262
[attach-var-names] #7264 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7265 => #7260 #7264
[mk-app] #7266 <= #186 #676
[mk-app] #7267 not #7266
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7268 = #6426 #7267
[instance] 0x0 #7268
[attach-enode] #7268 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7266
[mk-app] #7268 = #7266 #6446
[instance] 0x0 #7268
[attach-enode] #7268 0
[end-of-instance]
[mk-app] #7268 = #7261 #6498
[mk-quant] #7269 internal_vstd!std_specs.range.impl&__25.spec_is_lt.?_definition 2 #7263 #7268
[attach-var-names] #7269 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7266 not #7260
[mk-app] #7267 or #7266 #7269
[mk-app] #7270 => #7260 #7269
[inst-discovered] theory-solving 0x0 basic# ; #7270
[mk-app] #7271 = #7270 #7267
[instance] 0x0 #7271
[attach-enode] #7271 0
[end-of-instance]
[mk-app] #7270 fuel_bool_default #1162
[mk-app] #7271 fuel_bool #1162
[mk-app] #7272 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1812 #32 #33
[mk-app] #7273 = #7272 #6504
[mk-app] #7274 pattern #7272
[mk-quant] #7275 internal_vstd!std_specs.range.impl&__25.spec_steps_between_int.?_definition 2 #7274 #7273
[attach-var-names] #7275 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7276 => #7271 #7275
[mk-app] #7277 not #7271
[mk-app] #7278 or #7277 #7275
[inst-discovered] theory-solving 0x0 basic# ; #7276
[mk-app] #7279 = #7276 #7278
[instance] 0x0 #7279
[attach-enode] #7279 0
[end-of-instance]
[mk-app] #7279 fuel_bool_default #1164
[mk-app] #7280 fuel_bool #1164
[mk-app] #7281 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1812 #32 #33
[mk-app] #7282 Int
[attach-meaning] #7282 arith 127
[mk-app] #7283 <= #6518 #7282
[mk-app] #7284 iClip #275 #6518
[mk-app] #7285 I #7284
[mk-app] #7286 core!option.Option./Some #7285
[mk-app] #7287 if #7283 #7286 #2127
[mk-app] #7288 Poly%core!option.Option. #7287
[mk-app] #7289 = #7281 #7288
[mk-app] #7290 pattern #7281
[mk-quant] #7291 internal_vstd!std_specs.range.impl&__25.spec_forward_checked_int.?_definition 2 #7290 #7289
[attach-var-names] #7291 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7292 => #7280 #7291
[mk-app] #7293 not #7280
[mk-app] #7294 or #7293 #7291
[inst-discovered] theory-solving 0x0 basic# ; #7292
[mk-app] #7295 = #7292 #7294
[instance] 0x0 #7295
[attach-enode] #7295 0
[end-of-instance]
[mk-app] #7295 fuel_bool_default #1163
[mk-app] #7296 fuel_bool #1163
[mk-app] #7297 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1812 #32 #33
[mk-app] #7298 = #7297 #7281
[mk-app] #7299 pattern #7297
[mk-quant] #7300 internal_vstd!std_specs.range.impl&__25.spec_forward_checked.?_definition 2 #7299 #7298
[attach-var-names] #7300 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7301 => #7296 #7300
[mk-app] #7302 not #7296
[mk-app] #7303 or #7302 #7300
[inst-discovered] theory-solving 0x0 basic# ; #7301
[mk-app] #7304 = #7301 #7303
[instance] 0x0 #7304
[attach-enode] #7304 0
[end-of-instance]
[mk-app] #7304 tr_bound%core!iter.range.Step. #120 #1812
[mk-app] #7305 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1812
[mk-app] #7306 fuel_bool #1165
[mk-app] #7307 TYPE%core!ops.range.Range. #120 #1812
[mk-app] #7308 has_type #33 #7307
[mk-app] #7309 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1812 #2332 #2344
[mk-app] #7310 %B #7309
[mk-app] #7311 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1812 #2332 #6557
[mk-app] #7312 %Poly%core!option.Option. #7311
[mk-app] #7313 is-core!option.Option./Some #7312
[mk-app] #7314 Poly%core!option.Option. #7312
[mk-app] #7315 %Poly%core!option.Option. #7314
[mk-app] #7316 core!option.Option./Some/0 #120 #1812 #7315
[mk-app] #7317 %I #7316
[mk-app] #7318 vstd!std_specs.range.spec_range_next.? #120 #1812 #33
[mk-app] #7319 I #7317
[mk-app] #7320 core!ops.range.Range./Range #7319 #2344
[mk-app] #7321 Poly%core!ops.range.Range. #7320
[mk-app] #7322 tuple%2./tuple%2 #7321 #6570
[mk-app] #7323 = #7318 #7322
[mk-app] #7324 => #7313 #7323
[mk-app] #7325 => #7310 #7324
[mk-app] #7326 not #7310
[mk-app] #7327 = #7318 #6576
[mk-app] #7328 => #7326 #7327
[mk-app] #7329 and #7325 #7328
[mk-app] #7330 => #7308 #7329
[mk-app] #7331 pattern #7318
[mk-quant] #7332 user_vstd__std_specs__range__axiom_spec_range_next_i8_0 1 #7331 #7330
[attach-var-names] #7332 (|range!| ; |Poly|)
[mk-app] #7333 => #7306 #7332
[mk-app] #7334 is #7312
[inst-discovered] theory-solving 0x0 datatype# ; #7313
[mk-app] #7335 = #7313 #7334
[instance] 0x0 #7335
[attach-enode] #7335 0
[end-of-instance]
[mk-app] #7335 not #7334
[mk-app] #7336 or #7335 #7323
[mk-app] #7337 => #7334 #7323
[inst-discovered] theory-solving 0x0 basic# ; #7337
[mk-app] #7338 = #7337 #7336
[instance] 0x0 #7338
[attach-enode] #7338 0
[end-of-instance]
[mk-app] #7337 or #7326 #7335 #7323
[mk-app] #7338 => #7310 #7336
[inst-discovered] theory-solving 0x0 basic# ; #7338
[mk-app] #7339 = #7338 #7337
[instance] 0x0 #7339
[attach-enode] #7339 0
[end-of-instance]
[mk-app] #7336 or #7310 #7327
[inst-discovered] theory-solving 0x0 basic# ; #7328
[mk-app] #7338 = #7328 #7336
[instance] 0x0 #7338
[attach-enode] #7338 0
[end-of-instance]
[mk-app] #7338 and #7337 #7336
[mk-app] #7339 not #7308
[mk-app] #7340 or #7339 #7338
[mk-app] #7341 => #7308 #7338
[inst-discovered] theory-solving 0x0 basic# ; #7341
[mk-app] #7342 = #7341 #7340
[instance] 0x0 #7342
[attach-enode] #7342 0
[end-of-instance]
[mk-quant] #7341 user_vstd__std_specs__range__axiom_spec_range_next_i8_0 1 #7331 #7340
[attach-var-names] #7341 (|range!| ; |Poly|)
[mk-app] #7342 not #7306
[mk-app] #7343 or #7342 #7341
[mk-app] #7344 => #7306 #7341
[inst-discovered] theory-solving 0x0 basic# ; #7344
[mk-app] #7345 = #7344 #7343
[instance] 0x0 #7345
[attach-enode] #7345 0
[end-of-instance]
[attach-meaning] #279 arith 16
[mk-app] #7344 tr_bound%core!clone.Clone. #120 #1833
[mk-app] #7345 fuel_bool_default #808
[mk-app] #7346 fuel_bool #808
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7347 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1833 #120 #1833
[mk-app] #7348 = #7347 #6282
[mk-app] #7349 => #7346 #7348
[mk-app] #7350 not #7346
[mk-app] #7351 or #7350 #7348
[inst-discovered] theory-solving 0x0 basic# ; #7349
[mk-app] #7352 = #7349 #7351
[instance] 0x0 #7352
[attach-enode] #7352 0
[end-of-instance]
[mk-app] #7352 fuel_bool_default #809
[mk-app] #7353 fuel_bool #809
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7354 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1833 #120 #1833 #32 #33
[mk-app] #7355 = #7354 #6290
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7356 pattern #7354
[mk-quant] #7357 internal_vstd!std_specs.num.i16_specs_tmp.impl&__0.eq_spec.?_definition 2 #7356 #7355
[attach-var-names] #7357 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7358 => #7353 #7357
[mk-app] #7359 not #7353
[mk-app] #7360 or #7359 #7357
[inst-discovered] theory-solving 0x0 basic# ; #7358
[mk-app] #7361 = #7358 #7360
[instance] 0x0 #7361
[attach-enode] #7361 0
[end-of-instance]
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7361 tr_bound%core!cmp.PartialEq. #120 #1833 #120 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7362 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1833 #120 #1833
[mk-app] #7363 fuel_bool_default #810
[mk-app] #7364 fuel_bool #810
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7365 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1833 #120 #1833
[mk-app] #7366 = #7365 #6282
[mk-app] #7367 => #7364 #7366
[mk-app] #7368 not #7364
[mk-app] #7369 or #7368 #7366
[inst-discovered] theory-solving 0x0 basic# ; #7367
[mk-app] #7370 = #7367 #7369
[instance] 0x0 #7370
[attach-enode] #7370 0
[end-of-instance]
[mk-app] #7370 fuel_bool_default #811
[mk-app] #7371 fuel_bool #811
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7372 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1833 #120 #1833 #32 #33
[mk-app] #7373 = #7372 #6439
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7374 pattern #7372
[mk-quant] #7375 internal_vstd!std_specs.num.i16_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7374 #7373
[attach-var-names] #7375 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7376 => #7371 #7375
[mk-app] #7377 <= #186 #676
[mk-app] #7378 not #7377
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7379 = #6426 #7378
[instance] 0x0 #7379
[attach-enode] #7379 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7377
[mk-app] #7379 = #7377 #6446
[instance] 0x0 #7379
[attach-enode] #7379 0
[end-of-instance]
[mk-app] #7379 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #7380 = #6430 #7379
[instance] 0x0 #7380
[attach-enode] #7380 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7380 * #365 #186
[mk-app] #7381 + #7380 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #7380 = #5258 #5266
[instance] 0x0 #7380
[attach-enode] #7380 0
[end-of-instance]
[mk-app] #7380 not #5266
[mk-app] #7381 if #7380 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #7381
[mk-app] #7382 = #7381 #6450
[instance] 0x0 #7382
[attach-enode] #7382 0
[end-of-instance]
[mk-app] #7381 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #7381
[mk-app] #7382 = #7381 #6451
[instance] 0x0 #7382
[attach-enode] #7382 0
[end-of-instance]
[mk-app] #7381 = #7372 #6452
[mk-quant] #7382 internal_vstd!std_specs.num.i16_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7374 #7381
[attach-var-names] #7382 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7377 not #7371
[mk-app] #7378 or #7377 #7382
[mk-app] #7380 => #7371 #7382
[inst-discovered] theory-solving 0x0 basic# ; #7380
[mk-app] #7379 = #7380 #7378
[instance] 0x0 #7379
[attach-enode] #7379 0
[end-of-instance]
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7380 tr_bound%core!cmp.PartialOrd. #120 #1833 #120 #1833
[attach-meaning] #279 arith 16
[attach-meaning] #279 arith 16
[mk-app] #7379 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1833 #120 #1833
[mk-app] #7383 fuel_bool_default #1166
[mk-app] #7384 fuel_bool #1166
[attach-meaning] #279 arith 16
[mk-app] #7385 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1833 #32 #33
[mk-app] #7386 = #7385 #6490
[attach-meaning] #279 arith 16
[mk-app] #7387 pattern #7385
[mk-quant] #7388 internal_vstd!std_specs.range.impl&__26.spec_is_lt.?_definition 2 #7387 #7386
[attach-var-names] #7388 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7389 => #7384 #7388
[mk-app] #7390 <= #186 #676
[mk-app] #7391 not #7390
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7392 = #6426 #7391
[instance] 0x0 #7392
[attach-enode] #7392 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7390
[mk-app] #7392 = #7390 #6446
[instance] 0x0 #7392
[attach-enode] #7392 0
[end-of-instance]
[mk-app] #7392 = #7385 #6498
[mk-quant] #7393 internal_vstd!std_specs.range.impl&__26.spec_is_lt.?_definition 2 #7387 #7392
[attach-var-names] #7393 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7390 not #7384
[mk-app] #7391 or #7390 #7393
[mk-app] #7394 => #7384 #7393
[inst-discovered] theory-solving 0x0 basic# ; #7394
[mk-app] #7395 = #7394 #7391
[instance] 0x0 #7395
[attach-enode] #7395 0
[end-of-instance]
[mk-app] #7394 fuel_bool_default #1167
[mk-app] #7395 fuel_bool #1167
[attach-meaning] #279 arith 16
[mk-app] #7396 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1833 #32 #33
[mk-app] #7397 = #7396 #6504
[attach-meaning] #279 arith 16
[mk-app] #7398 pattern #7396
[mk-quant] #7399 internal_vstd!std_specs.range.impl&__26.spec_steps_between_int.?_definition 2 #7398 #7397
[attach-var-names] #7399 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7400 => #7395 #7399
[mk-app] #7401 not #7395
[mk-app] #7402 or #7401 #7399
[inst-discovered] theory-solving 0x0 basic# ; #7400
[mk-app] #7403 = #7400 #7402
[instance] 0x0 #7403
[attach-enode] #7403 0
[end-of-instance]
[mk-app] #7403 fuel_bool_default #1169
[mk-app] #7404 fuel_bool #1169
[attach-meaning] #279 arith 16
[mk-app] #7405 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1833 #32 #33
[mk-app] #7406 Int
[attach-meaning] #7406 arith 32767
[mk-app] #7407 <= #6518 #7406
[attach-meaning] #279 arith 16
[mk-app] #7408 iClip #279 #6518
[mk-app] #7409 I #7408
[mk-app] #7410 core!option.Option./Some #7409
[mk-app] #7411 if #7407 #7410 #2127
[mk-app] #7412 Poly%core!option.Option. #7411
[mk-app] #7413 = #7405 #7412
[attach-meaning] #279 arith 16
[mk-app] #7414 pattern #7405
[mk-quant] #7415 internal_vstd!std_specs.range.impl&__26.spec_forward_checked_int.?_definition 2 #7414 #7413
[attach-var-names] #7415 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7416 => #7404 #7415
[mk-app] #7417 not #7404
[mk-app] #7418 or #7417 #7415
[inst-discovered] theory-solving 0x0 basic# ; #7416
[mk-app] #7419 = #7416 #7418
[instance] 0x0 #7419
[attach-enode] #7419 0
[end-of-instance]
[mk-app] #7419 fuel_bool_default #1168
[mk-app] #7420 fuel_bool #1168
[attach-meaning] #279 arith 16
[mk-app] #7421 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1833 #32 #33
[attach-meaning] #279 arith 16
[mk-app] #7422 = #7421 #7405
[attach-meaning] #279 arith 16
[mk-app] #7423 pattern #7421
[mk-quant] #7424 internal_vstd!std_specs.range.impl&__26.spec_forward_checked.?_definition 2 #7423 #7422
[attach-var-names] #7424 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7425 => #7420 #7424
[mk-app] #7426 not #7420
[mk-app] #7427 or #7426 #7424
[inst-discovered] theory-solving 0x0 basic# ; #7425
[mk-app] #7428 = #7425 #7427
[instance] 0x0 #7428
[attach-enode] #7428 0
[end-of-instance]
[attach-meaning] #279 arith 16
[mk-app] #7428 tr_bound%core!iter.range.Step. #120 #1833
[attach-meaning] #279 arith 16
[mk-app] #7429 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1833
[mk-app] #7430 fuel_bool #1170
[attach-meaning] #279 arith 16
[mk-app] #7431 TYPE%core!ops.range.Range. #120 #1833
[mk-app] #7432 has_type #33 #7431
[attach-meaning] #279 arith 16
[mk-app] #7433 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1833 #2332 #2344
[mk-app] #7434 %B #7433
[attach-meaning] #279 arith 16
[mk-app] #7435 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1833 #2332 #6557
[mk-app] #7436 %Poly%core!option.Option. #7435
[mk-app] #7437 is-core!option.Option./Some #7436
[attach-meaning] #279 arith 16
[mk-app] #7438 Poly%core!option.Option. #7436
[mk-app] #7439 %Poly%core!option.Option. #7438
[mk-app] #7440 core!option.Option./Some/0 #120 #1833 #7439
[mk-app] #7441 %I #7440
[attach-meaning] #279 arith 16
[mk-app] #7442 vstd!std_specs.range.spec_range_next.? #120 #1833 #33
[mk-app] #7443 I #7441
[mk-app] #7444 core!ops.range.Range./Range #7443 #2344
[mk-app] #7445 Poly%core!ops.range.Range. #7444
[mk-app] #7446 tuple%2./tuple%2 #7445 #6570
[mk-app] #7447 = #7442 #7446
[mk-app] #7448 => #7437 #7447
[mk-app] #7449 => #7434 #7448
[attach-meaning] #279 arith 16
[mk-app] #7450 not #7434
[attach-meaning] #279 arith 16
[mk-app] #7451 = #7442 #6576
[mk-app] #7452 => #7450 #7451
[mk-app] #7453 and #7449 #7452
[mk-app] #7454 => #7432 #7453
[attach-meaning] #279 arith 16
[mk-app] #7455 pattern #7442
[mk-quant] #7456 user_vstd__std_specs__range__axiom_spec_range_next_i16_0 1 #7455 #7454
[attach-var-names] #7456 (|range!| ; |Poly|)
[mk-app] #7457 => #7430 #7456
[mk-app] #7458 is #7436
[inst-discovered] theory-solving 0x0 datatype# ; #7437
[mk-app] #7459 = #7437 #7458
[instance] 0x0 #7459
[attach-enode] #7459 0
[end-of-instance]
[mk-app] #7459 not #7458
[mk-app] #7460 or #7459 #7447
[mk-app] #7461 => #7458 #7447
[inst-discovered] theory-solving 0x0 basic# ; #7461
[mk-app] #7462 = #7461 #7460
[instance] 0x0 #7462
[attach-enode] #7462 0
[end-of-instance]
[mk-app] #7461 or #7450 #7459 #7447
[mk-app] #7462 => #7434 #7460
[inst-discovered] theory-solving 0x0 basic# ; #7462
[mk-app] #7463 = #7462 #7461
[instance] 0x0 #7463
[attach-enode] #7463 0
[end-of-instance]
[mk-app] #7460 or #7434 #7451
[inst-discovered] theory-solving 0x0 basic# ; #7452
[mk-app] #7462 = #7452 #7460
[instance] 0x0 #7462
[attach-enode] #7462 0
[end-of-instance]
[mk-app] #7462 and #7461 #7460
[mk-app] #7463 not #7432
[mk-app] #7464 or #7463 #7462
[mk-app] #7465 => #7432 #7462
[inst-discovered] theory-solving 0x0 basic# ; #7465
[mk-app] #7466 = #7465 #7464
[instance] 0x0 #7466
[attach-enode] #7466 0
[end-of-instance]
[mk-quant] #7465 user_vstd__std_specs__range__axiom_spec_range_next_i16_0 1 #7455 #7464
[attach-var-names] #7465 (|range!| ; |Poly|)
[mk-app] #7466 not #7430
[mk-app] #7467 or #7466 #7465
[mk-app] #7468 => #7430 #7465
[inst-discovered] theory-solving 0x0 basic# ; #7468
[mk-app] #7469 = #7468 #7467
[instance] 0x0 #7469
[attach-enode] #7469 0
[end-of-instance]
[attach-meaning] #270 arith 32
[mk-app] #7468 tr_bound%core!clone.Clone. #120 #1854
[mk-app] #7469 fuel_bool_default #816
[mk-app] #7470 fuel_bool #816
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7471 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1854 #120 #1854
[mk-app] #7472 = #7471 #6282
[mk-app] #7473 => #7470 #7472
[mk-app] #7474 not #7470
[mk-app] #7475 or #7474 #7472
[inst-discovered] theory-solving 0x0 basic# ; #7473
[mk-app] #7476 = #7473 #7475
[instance] 0x0 #7476
[attach-enode] #7476 0
[end-of-instance]
[mk-app] #7476 fuel_bool_default #817
[mk-app] #7477 fuel_bool #817
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7478 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1854 #120 #1854 #32 #33
[mk-app] #7479 = #7478 #6290
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7480 pattern #7478
[mk-quant] #7481 internal_vstd!std_specs.num.i32_specs_tmp.impl&__0.eq_spec.?_definition 2 #7480 #7479
[attach-var-names] #7481 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7482 => #7477 #7481
[mk-app] #7483 not #7477
[mk-app] #7484 or #7483 #7481
[inst-discovered] theory-solving 0x0 basic# ; #7482
[mk-app] #7485 = #7482 #7484
[instance] 0x0 #7485
[attach-enode] #7485 0
[end-of-instance]
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7485 tr_bound%core!cmp.PartialEq. #120 #1854 #120 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7486 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1854 #120 #1854
[mk-app] #7487 fuel_bool_default #818
[mk-app] #7488 fuel_bool #818
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7489 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1854 #120 #1854
[mk-app] #7490 = #7489 #6282
[mk-app] #7491 => #7488 #7490
[mk-app] #7492 not #7488
[mk-app] #7493 or #7492 #7490
[inst-discovered] theory-solving 0x0 basic# ; #7491
[mk-app] #7494 = #7491 #7493
[instance] 0x0 #7494
[attach-enode] #7494 0
[end-of-instance]
[mk-app] #7494 fuel_bool_default #819
[mk-app] #7495 fuel_bool #819
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7496 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1854 #120 #1854 #32 #33
[mk-app] #7497 = #7496 #6439
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7498 pattern #7496
[mk-quant] #7499 internal_vstd!std_specs.num.i32_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7498 #7497
[attach-var-names] #7499 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7500 => #7495 #7499
[mk-app] #7501 <= #186 #676
[mk-app] #7502 not #7501
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7503 = #6426 #7502
[instance] 0x0 #7503
[attach-enode] #7503 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7501
[mk-app] #7503 = #7501 #6446
[instance] 0x0 #7503
[attach-enode] #7503 0
[end-of-instance]
[mk-app] #7503 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #7504 = #6430 #7503
[instance] 0x0 #7504
[attach-enode] #7504 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7504 * #365 #186
[mk-app] #7505 + #7504 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #7504 = #5258 #5266
[instance] 0x0 #7504
[attach-enode] #7504 0
[end-of-instance]
[mk-app] #7504 not #5266
[mk-app] #7505 if #7504 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #7505
[mk-app] #7506 = #7505 #6450
[instance] 0x0 #7506
[attach-enode] #7506 0
[end-of-instance]
[mk-app] #7505 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #7505
[mk-app] #7506 = #7505 #6451
[instance] 0x0 #7506
[attach-enode] #7506 0
[end-of-instance]
[mk-app] #7505 = #7496 #6452
[mk-quant] #7506 internal_vstd!std_specs.num.i32_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7498 #7505
[attach-var-names] #7506 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7501 not #7495
[mk-app] #7502 or #7501 #7506
[mk-app] #7504 => #7495 #7506
[inst-discovered] theory-solving 0x0 basic# ; #7504
[mk-app] #7503 = #7504 #7502
[instance] 0x0 #7503
[attach-enode] #7503 0
[end-of-instance]
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7504 tr_bound%core!cmp.PartialOrd. #120 #1854 #120 #1854
[attach-meaning] #270 arith 32
[attach-meaning] #270 arith 32
[mk-app] #7503 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1854 #120 #1854
[mk-app] #7507 fuel_bool_default #1171
[mk-app] #7508 fuel_bool #1171
[attach-meaning] #270 arith 32
[mk-app] #7509 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1854 #32 #33
[mk-app] #7510 = #7509 #6490
[attach-meaning] #270 arith 32
[mk-app] #7511 pattern #7509
[mk-quant] #7512 internal_vstd!std_specs.range.impl&__27.spec_is_lt.?_definition 2 #7511 #7510
[attach-var-names] #7512 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7513 => #7508 #7512
[mk-app] #7514 <= #186 #676
[mk-app] #7515 not #7514
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7516 = #6426 #7515
[instance] 0x0 #7516
[attach-enode] #7516 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7514
[mk-app] #7516 = #7514 #6446
[instance] 0x0 #7516
[attach-enode] #7516 0
[end-of-instance]
[mk-app] #7516 = #7509 #6498
[mk-quant] #7517 internal_vstd!std_specs.range.impl&__27.spec_is_lt.?_definition 2 #7511 #7516
[attach-var-names] #7517 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7514 not #7508
[mk-app] #7515 or #7514 #7517
[mk-app] #7518 => #7508 #7517
[inst-discovered] theory-solving 0x0 basic# ; #7518
[mk-app] #7519 = #7518 #7515
[instance] 0x0 #7519
[attach-enode] #7519 0
[end-of-instance]
[mk-app] #7518 fuel_bool_default #1172
[mk-app] #7519 fuel_bool #1172
[attach-meaning] #270 arith 32
[mk-app] #7520 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1854 #32 #33
[mk-app] #7521 = #7520 #6504
[attach-meaning] #270 arith 32
[mk-app] #7522 pattern #7520
[mk-quant] #7523 internal_vstd!std_specs.range.impl&__27.spec_steps_between_int.?_definition 2 #7522 #7521
[attach-var-names] #7523 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7524 => #7519 #7523
[mk-app] #7525 not #7519
[mk-app] #7526 or #7525 #7523
[inst-discovered] theory-solving 0x0 basic# ; #7524
[mk-app] #7527 = #7524 #7526
[instance] 0x0 #7527
[attach-enode] #7527 0
[end-of-instance]
[mk-app] #7527 fuel_bool_default #1174
[mk-app] #7528 fuel_bool #1174
[attach-meaning] #270 arith 32
[mk-app] #7529 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1854 #32 #33
[mk-app] #7530 Int
[attach-meaning] #7530 arith 2147483647
[mk-app] #7531 <= #6518 #7530
[attach-meaning] #270 arith 32
[mk-app] #7532 iClip #270 #6518
[mk-app] #7533 I #7532
[mk-app] #7534 core!option.Option./Some #7533
[mk-app] #7535 if #7531 #7534 #2127
[mk-app] #7536 Poly%core!option.Option. #7535
[mk-app] #7537 = #7529 #7536
[attach-meaning] #270 arith 32
[mk-app] #7538 pattern #7529
[mk-quant] #7539 internal_vstd!std_specs.range.impl&__27.spec_forward_checked_int.?_definition 2 #7538 #7537
[attach-var-names] #7539 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7540 => #7528 #7539
[mk-app] #7541 not #7528
[mk-app] #7542 or #7541 #7539
[inst-discovered] theory-solving 0x0 basic# ; #7540
[mk-app] #7543 = #7540 #7542
[instance] 0x0 #7543
[attach-enode] #7543 0
[end-of-instance]
[mk-app] #7543 fuel_bool_default #1173
[mk-app] #7544 fuel_bool #1173
[attach-meaning] #270 arith 32
[mk-app] #7545 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1854 #32 #33
[attach-meaning] #270 arith 32
[mk-app] #7546 = #7545 #7529
[attach-meaning] #270 arith 32
[mk-app] #7547 pattern #7545
[mk-quant] #7548 internal_vstd!std_specs.range.impl&__27.spec_forward_checked.?_definition 2 #7547 #7546
[attach-var-names] #7548 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7549 => #7544 #7548
[mk-app] #7550 not #7544
[mk-app] #7551 or #7550 #7548
[inst-discovered] theory-solving 0x0 basic# ; #7549
[mk-app] #7552 = #7549 #7551
[instance] 0x0 #7552
[attach-enode] #7552 0
[end-of-instance]
[attach-meaning] #270 arith 32
[mk-app] #7552 tr_bound%core!iter.range.Step. #120 #1854
[attach-meaning] #270 arith 32
[mk-app] #7553 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1854
[mk-app] #7554 fuel_bool #1175
[attach-meaning] #270 arith 32
[mk-app] #7555 TYPE%core!ops.range.Range. #120 #1854
[mk-app] #7556 has_type #33 #7555
[attach-meaning] #270 arith 32
[mk-app] #7557 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1854 #2332 #2344
[mk-app] #7558 %B #7557
[attach-meaning] #270 arith 32
[mk-app] #7559 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1854 #2332 #6557
[mk-app] #7560 %Poly%core!option.Option. #7559
[mk-app] #7561 is-core!option.Option./Some #7560
[attach-meaning] #270 arith 32
[mk-app] #7562 Poly%core!option.Option. #7560
[mk-app] #7563 %Poly%core!option.Option. #7562
[mk-app] #7564 core!option.Option./Some/0 #120 #1854 #7563
[mk-app] #7565 %I #7564
[attach-meaning] #270 arith 32
[mk-app] #7566 vstd!std_specs.range.spec_range_next.? #120 #1854 #33
[mk-app] #7567 I #7565
[mk-app] #7568 core!ops.range.Range./Range #7567 #2344
[mk-app] #7569 Poly%core!ops.range.Range. #7568
[mk-app] #7570 tuple%2./tuple%2 #7569 #6570
[mk-app] #7571 = #7566 #7570
[mk-app] #7572 => #7561 #7571
[mk-app] #7573 => #7558 #7572
[attach-meaning] #270 arith 32
[mk-app] #7574 not #7558
[attach-meaning] #270 arith 32
[mk-app] #7575 = #7566 #6576
[mk-app] #7576 => #7574 #7575
[mk-app] #7577 and #7573 #7576
[mk-app] #7578 => #7556 #7577
[attach-meaning] #270 arith 32
[mk-app] #7579 pattern #7566
[mk-quant] #7580 user_vstd__std_specs__range__axiom_spec_range_next_i32_0 1 #7579 #7578
[attach-var-names] #7580 (|range!| ; |Poly|)
[mk-app] #7581 => #7554 #7580
[mk-app] #7582 is #7560
[inst-discovered] theory-solving 0x0 datatype# ; #7561
[mk-app] #7583 = #7561 #7582
[instance] 0x0 #7583
[attach-enode] #7583 0
[end-of-instance]
[mk-app] #7583 not #7582
[mk-app] #7584 or #7583 #7571
[mk-app] #7585 => #7582 #7571
[inst-discovered] theory-solving 0x0 basic# ; #7585
[mk-app] #7586 = #7585 #7584
[instance] 0x0 #7586
[attach-enode] #7586 0
[end-of-instance]
[mk-app] #7585 or #7574 #7583 #7571
[mk-app] #7586 => #7558 #7584
[inst-discovered] theory-solving 0x0 basic# ; #7586
[mk-app] #7587 = #7586 #7585
[instance] 0x0 #7587
[attach-enode] #7587 0
[end-of-instance]
[mk-app] #7584 or #7558 #7575
[inst-discovered] theory-solving 0x0 basic# ; #7576
[mk-app] #7586 = #7576 #7584
[instance] 0x0 #7586
[attach-enode] #7586 0
[end-of-instance]
[mk-app] #7586 and #7585 #7584
[mk-app] #7587 not #7556
[mk-app] #7588 or #7587 #7586
[mk-app] #7589 => #7556 #7586
[inst-discovered] theory-solving 0x0 basic# ; #7589
[mk-app] #7590 = #7589 #7588
[instance] 0x0 #7590
[attach-enode] #7590 0
[end-of-instance]
[mk-quant] #7589 user_vstd__std_specs__range__axiom_spec_range_next_i32_0 1 #7579 #7588
[attach-var-names] #7589 (|range!| ; |Poly|)
[mk-app] #7590 not #7554
[mk-app] #7591 or #7590 #7589
[mk-app] #7592 => #7554 #7589
[inst-discovered] theory-solving 0x0 basic# ; #7592
[mk-app] #7593 = #7592 #7591
[instance] 0x0 #7593
[attach-enode] #7593 0
[end-of-instance]
[attach-meaning] #272 arith 64
[mk-app] #7592 tr_bound%core!clone.Clone. #120 #1875
[mk-app] #7593 fuel_bool_default #824
[mk-app] #7594 fuel_bool #824
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7595 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1875 #120 #1875
[mk-app] #7596 = #7595 #6282
[mk-app] #7597 => #7594 #7596
[mk-app] #7598 not #7594
[mk-app] #7599 or #7598 #7596
[inst-discovered] theory-solving 0x0 basic# ; #7597
[mk-app] #7600 = #7597 #7599
[instance] 0x0 #7600
[attach-enode] #7600 0
[end-of-instance]
[mk-app] #7600 fuel_bool_default #825
[mk-app] #7601 fuel_bool #825
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7602 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1875 #120 #1875 #32 #33
[mk-app] #7603 = #7602 #6290
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7604 pattern #7602
[mk-quant] #7605 internal_vstd!std_specs.num.i64_specs_tmp.impl&__0.eq_spec.?_definition 2 #7604 #7603
[attach-var-names] #7605 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7606 => #7601 #7605
[mk-app] #7607 not #7601
[mk-app] #7608 or #7607 #7605
[inst-discovered] theory-solving 0x0 basic# ; #7606
[mk-app] #7609 = #7606 #7608
[instance] 0x0 #7609
[attach-enode] #7609 0
[end-of-instance]
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7609 tr_bound%core!cmp.PartialEq. #120 #1875 #120 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7610 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1875 #120 #1875
[mk-app] #7611 fuel_bool_default #826
[mk-app] #7612 fuel_bool #826
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7613 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1875 #120 #1875
[mk-app] #7614 = #7613 #6282
[mk-app] #7615 => #7612 #7614
[mk-app] #7616 not #7612
[mk-app] #7617 or #7616 #7614
[inst-discovered] theory-solving 0x0 basic# ; #7615
[mk-app] #7618 = #7615 #7617
[instance] 0x0 #7618
[attach-enode] #7618 0
[end-of-instance]
[mk-app] #7618 fuel_bool_default #827
[mk-app] #7619 fuel_bool #827
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7620 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1875 #120 #1875 #32 #33
[mk-app] #7621 = #7620 #6439
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7622 pattern #7620
[mk-quant] #7623 internal_vstd!std_specs.num.i64_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7622 #7621
[attach-var-names] #7623 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7624 => #7619 #7623
[mk-app] #7625 <= #186 #676
[mk-app] #7626 not #7625
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7627 = #6426 #7626
[instance] 0x0 #7627
[attach-enode] #7627 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7625
[mk-app] #7627 = #7625 #6446
[instance] 0x0 #7627
[attach-enode] #7627 0
[end-of-instance]
[mk-app] #7627 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #7628 = #6430 #7627
[instance] 0x0 #7628
[attach-enode] #7628 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7628 * #365 #186
[mk-app] #7629 + #7628 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #7628 = #5258 #5266
[instance] 0x0 #7628
[attach-enode] #7628 0
[end-of-instance]
[mk-app] #7628 not #5266
[mk-app] #7629 if #7628 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #7629
[mk-app] #7630 = #7629 #6450
[instance] 0x0 #7630
[attach-enode] #7630 0
[end-of-instance]
[mk-app] #7629 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #7629
[mk-app] #7630 = #7629 #6451
[instance] 0x0 #7630
[attach-enode] #7630 0
[end-of-instance]
[mk-app] #7629 = #7620 #6452
[mk-quant] #7630 internal_vstd!std_specs.num.i64_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7622 #7629
[attach-var-names] #7630 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7625 not #7619
[mk-app] #7626 or #7625 #7630
[mk-app] #7628 => #7619 #7630
[inst-discovered] theory-solving 0x0 basic# ; #7628
[mk-app] #7627 = #7628 #7626
[instance] 0x0 #7627
[attach-enode] #7627 0
[end-of-instance]
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7628 tr_bound%core!cmp.PartialOrd. #120 #1875 #120 #1875
[attach-meaning] #272 arith 64
[attach-meaning] #272 arith 64
[mk-app] #7627 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1875 #120 #1875
[mk-app] #7631 fuel_bool_default #1176
[mk-app] #7632 fuel_bool #1176
[attach-meaning] #272 arith 64
[mk-app] #7633 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1875 #32 #33
[mk-app] #7634 = #7633 #6490
[attach-meaning] #272 arith 64
[mk-app] #7635 pattern #7633
[mk-quant] #7636 internal_vstd!std_specs.range.impl&__28.spec_is_lt.?_definition 2 #7635 #7634
[attach-var-names] #7636 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7637 => #7632 #7636
[mk-app] #7638 <= #186 #676
[mk-app] #7639 not #7638
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7640 = #6426 #7639
[instance] 0x0 #7640
[attach-enode] #7640 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7638
[mk-app] #7640 = #7638 #6446
[instance] 0x0 #7640
[attach-enode] #7640 0
[end-of-instance]
[mk-app] #7640 = #7633 #6498
[mk-quant] #7641 internal_vstd!std_specs.range.impl&__28.spec_is_lt.?_definition 2 #7635 #7640
[attach-var-names] #7641 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7638 not #7632
[mk-app] #7639 or #7638 #7641
[mk-app] #7642 => #7632 #7641
[inst-discovered] theory-solving 0x0 basic# ; #7642
[mk-app] #7643 = #7642 #7639
[instance] 0x0 #7643
[attach-enode] #7643 0
[end-of-instance]
[mk-app] #7642 fuel_bool_default #1177
[mk-app] #7643 fuel_bool #1177
[attach-meaning] #272 arith 64
[mk-app] #7644 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1875 #32 #33
[mk-app] #7645 = #7644 #6504
[attach-meaning] #272 arith 64
[mk-app] #7646 pattern #7644
[mk-quant] #7647 internal_vstd!std_specs.range.impl&__28.spec_steps_between_int.?_definition 2 #7646 #7645
[attach-var-names] #7647 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7648 => #7643 #7647
[mk-app] #7649 not #7643
[mk-app] #7650 or #7649 #7647
[inst-discovered] theory-solving 0x0 basic# ; #7648
[mk-app] #7651 = #7648 #7650
[instance] 0x0 #7651
[attach-enode] #7651 0
[end-of-instance]
[mk-app] #7651 fuel_bool_default #1179
[mk-app] #7652 fuel_bool #1179
[attach-meaning] #272 arith 64
[mk-app] #7653 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1875 #32 #33
[mk-app] #7654 Int
[attach-meaning] #7654 arith 9223372036854775807
[mk-app] #7655 <= #6518 #7654
[attach-meaning] #272 arith 64
[mk-app] #7656 iClip #272 #6518
[mk-app] #7657 I #7656
[mk-app] #7658 core!option.Option./Some #7657
[mk-app] #7659 if #7655 #7658 #2127
[mk-app] #7660 Poly%core!option.Option. #7659
[mk-app] #7661 = #7653 #7660
[attach-meaning] #272 arith 64
[mk-app] #7662 pattern #7653
[mk-quant] #7663 internal_vstd!std_specs.range.impl&__28.spec_forward_checked_int.?_definition 2 #7662 #7661
[attach-var-names] #7663 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7664 => #7652 #7663
[mk-app] #7665 not #7652
[mk-app] #7666 or #7665 #7663
[inst-discovered] theory-solving 0x0 basic# ; #7664
[mk-app] #7667 = #7664 #7666
[instance] 0x0 #7667
[attach-enode] #7667 0
[end-of-instance]
[mk-app] #7667 fuel_bool_default #1178
[mk-app] #7668 fuel_bool #1178
[attach-meaning] #272 arith 64
[mk-app] #7669 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1875 #32 #33
[attach-meaning] #272 arith 64
[mk-app] #7670 = #7669 #7653
[attach-meaning] #272 arith 64
[mk-app] #7671 pattern #7669
[mk-quant] #7672 internal_vstd!std_specs.range.impl&__28.spec_forward_checked.?_definition 2 #7671 #7670
[attach-var-names] #7672 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7673 => #7668 #7672
[mk-app] #7674 not #7668
[mk-app] #7675 or #7674 #7672
[inst-discovered] theory-solving 0x0 basic# ; #7673
[mk-app] #7676 = #7673 #7675
[instance] 0x0 #7676
[attach-enode] #7676 0
[end-of-instance]
[attach-meaning] #272 arith 64
[mk-app] #7676 tr_bound%core!iter.range.Step. #120 #1875
[attach-meaning] #272 arith 64
[mk-app] #7677 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1875
[mk-app] #7678 fuel_bool #1180
[attach-meaning] #272 arith 64
[mk-app] #7679 TYPE%core!ops.range.Range. #120 #1875
[mk-app] #7680 has_type #33 #7679
[attach-meaning] #272 arith 64
[mk-app] #7681 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1875 #2332 #2344
[mk-app] #7682 %B #7681
[attach-meaning] #272 arith 64
[mk-app] #7683 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1875 #2332 #6557
[mk-app] #7684 %Poly%core!option.Option. #7683
[mk-app] #7685 is-core!option.Option./Some #7684
[attach-meaning] #272 arith 64
[mk-app] #7686 Poly%core!option.Option. #7684
[mk-app] #7687 %Poly%core!option.Option. #7686
[mk-app] #7688 core!option.Option./Some/0 #120 #1875 #7687
[mk-app] #7689 %I #7688
[attach-meaning] #272 arith 64
[mk-app] #7690 vstd!std_specs.range.spec_range_next.? #120 #1875 #33
[mk-app] #7691 I #7689
[mk-app] #7692 core!ops.range.Range./Range #7691 #2344
[mk-app] #7693 Poly%core!ops.range.Range. #7692
[mk-app] #7694 tuple%2./tuple%2 #7693 #6570
[mk-app] #7695 = #7690 #7694
[mk-app] #7696 => #7685 #7695
[mk-app] #7697 => #7682 #7696
[attach-meaning] #272 arith 64
[mk-app] #7698 not #7682
[attach-meaning] #272 arith 64
[mk-app] #7699 = #7690 #6576
[mk-app] #7700 => #7698 #7699
[mk-app] #7701 and #7697 #7700
[mk-app] #7702 => #7680 #7701
[attach-meaning] #272 arith 64
[mk-app] #7703 pattern #7690
[mk-quant] #7704 user_vstd__std_specs__range__axiom_spec_range_next_i64_0 1 #7703 #7702
[attach-var-names] #7704 (|range!| ; |Poly|)
[mk-app] #7705 => #7678 #7704
[mk-app] #7706 is #7684
[inst-discovered] theory-solving 0x0 datatype# ; #7685
[mk-app] #7707 = #7685 #7706
[instance] 0x0 #7707
[attach-enode] #7707 0
[end-of-instance]
[mk-app] #7707 not #7706
[mk-app] #7708 or #7707 #7695
[mk-app] #7709 => #7706 #7695
[inst-discovered] theory-solving 0x0 basic# ; #7709
[mk-app] #7710 = #7709 #7708
[instance] 0x0 #7710
[attach-enode] #7710 0
[end-of-instance]
[mk-app] #7709 or #7698 #7707 #7695
[mk-app] #7710 => #7682 #7708
[inst-discovered] theory-solving 0x0 basic# ; #7710
[mk-app] #7711 = #7710 #7709
[instance] 0x0 #7711
[attach-enode] #7711 0
[end-of-instance]
[mk-app] #7708 or #7682 #7699
[inst-discovered] theory-solving 0x0 basic# ; #7700
[mk-app] #7710 = #7700 #7708
[instance] 0x0 #7710
[attach-enode] #7710 0
[end-of-instance]
[mk-app] #7710 and #7709 #7708
[mk-app] #7711 not #7680
[mk-app] #7712 or #7711 #7710
[mk-app] #7713 => #7680 #7710
[inst-discovered] theory-solving 0x0 basic# ; #7713
[mk-app] #7714 = #7713 #7712
[instance] 0x0 #7714
[attach-enode] #7714 0
[end-of-instance]
[mk-quant] #7713 user_vstd__std_specs__range__axiom_spec_range_next_i64_0 1 #7703 #7712
[attach-var-names] #7713 (|range!| ; |Poly|)
[mk-app] #7714 not #7678
[mk-app] #7715 or #7714 #7713
[mk-app] #7716 => #7678 #7713
[inst-discovered] theory-solving 0x0 basic# ; #7716
[mk-app] #7717 = #7716 #7715
[instance] 0x0 #7717
[attach-enode] #7717 0
[end-of-instance]
[attach-meaning] #289 arith 128
[mk-app] #7716 tr_bound%core!clone.Clone. #120 #1896
[mk-app] #7717 fuel_bool_default #832
[mk-app] #7718 fuel_bool #832
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7719 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #1896 #120 #1896
[mk-app] #7720 = #7719 #6282
[mk-app] #7721 => #7718 #7720
[mk-app] #7722 not #7718
[mk-app] #7723 or #7722 #7720
[inst-discovered] theory-solving 0x0 basic# ; #7721
[mk-app] #7724 = #7721 #7723
[instance] 0x0 #7724
[attach-enode] #7724 0
[end-of-instance]
[mk-app] #7724 fuel_bool_default #833
[mk-app] #7725 fuel_bool #833
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7726 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #1896 #120 #1896 #32 #33
[mk-app] #7727 = #7726 #6290
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7728 pattern #7726
[mk-quant] #7729 internal_vstd!std_specs.num.i128_specs_tmp.impl&__0.eq_spec.?_definition 2 #7728 #7727
[attach-var-names] #7729 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7730 => #7725 #7729
[mk-app] #7731 not #7725
[mk-app] #7732 or #7731 #7729
[inst-discovered] theory-solving 0x0 basic# ; #7730
[mk-app] #7733 = #7730 #7732
[instance] 0x0 #7733
[attach-enode] #7733 0
[end-of-instance]
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7733 tr_bound%core!cmp.PartialEq. #120 #1896 #120 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7734 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #1896 #120 #1896
[mk-app] #7735 fuel_bool_default #834
[mk-app] #7736 fuel_bool #834
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7737 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #1896 #120 #1896
[mk-app] #7738 = #7737 #6282
[mk-app] #7739 => #7736 #7738
[mk-app] #7740 not #7736
[mk-app] #7741 or #7740 #7738
[inst-discovered] theory-solving 0x0 basic# ; #7739
[mk-app] #7742 = #7739 #7741
[instance] 0x0 #7742
[attach-enode] #7742 0
[end-of-instance]
[mk-app] #7742 fuel_bool_default #835
[mk-app] #7743 fuel_bool #835
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7744 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #1896 #120 #1896 #32 #33
[mk-app] #7745 = #7744 #6439
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7746 pattern #7744
[mk-quant] #7747 internal_vstd!std_specs.num.i128_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7746 #7745
[attach-var-names] #7747 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7748 => #7743 #7747
[mk-app] #7749 <= #186 #676
[mk-app] #7750 not #7749
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7751 = #6426 #7750
[instance] 0x0 #7751
[attach-enode] #7751 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7749
[mk-app] #7751 = #7749 #6446
[instance] 0x0 #7751
[attach-enode] #7751 0
[end-of-instance]
[mk-app] #7751 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #7752 = #6430 #7751
[instance] 0x0 #7752
[attach-enode] #7752 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7752 * #365 #186
[mk-app] #7753 + #7752 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #7752 = #5258 #5266
[instance] 0x0 #7752
[attach-enode] #7752 0
[end-of-instance]
[mk-app] #7752 not #5266
[mk-app] #7753 if #7752 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #7753
[mk-app] #7754 = #7753 #6450
[instance] 0x0 #7754
[attach-enode] #7754 0
[end-of-instance]
[mk-app] #7753 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #7753
[mk-app] #7754 = #7753 #6451
[instance] 0x0 #7754
[attach-enode] #7754 0
[end-of-instance]
[mk-app] #7753 = #7744 #6452
[mk-quant] #7754 internal_vstd!std_specs.num.i128_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7746 #7753
[attach-var-names] #7754 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7749 not #7743
[mk-app] #7750 or #7749 #7754
[mk-app] #7752 => #7743 #7754
[inst-discovered] theory-solving 0x0 basic# ; #7752
[mk-app] #7751 = #7752 #7750
[instance] 0x0 #7751
[attach-enode] #7751 0
[end-of-instance]
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7752 tr_bound%core!cmp.PartialOrd. #120 #1896 #120 #1896
[attach-meaning] #289 arith 128
[attach-meaning] #289 arith 128
[mk-app] #7751 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #1896 #120 #1896
[mk-app] #7755 fuel_bool_default #1181
[mk-app] #7756 fuel_bool #1181
[attach-meaning] #289 arith 128
[mk-app] #7757 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1896 #32 #33
[mk-app] #7758 = #7757 #6490
[attach-meaning] #289 arith 128
[mk-app] #7759 pattern #7757
[mk-quant] #7760 internal_vstd!std_specs.range.impl&__29.spec_is_lt.?_definition 2 #7759 #7758
[attach-var-names] #7760 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7761 => #7756 #7760
[mk-app] #7762 <= #186 #676
[mk-app] #7763 not #7762
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7764 = #6426 #7763
[instance] 0x0 #7764
[attach-enode] #7764 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7762
[mk-app] #7764 = #7762 #6446
[instance] 0x0 #7764
[attach-enode] #7764 0
[end-of-instance]
[mk-app] #7764 = #7757 #6498
[mk-quant] #7765 internal_vstd!std_specs.range.impl&__29.spec_is_lt.?_definition 2 #7759 #7764
[attach-var-names] #7765 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7762 not #7756
[mk-app] #7763 or #7762 #7765
[mk-app] #7766 => #7756 #7765
[inst-discovered] theory-solving 0x0 basic# ; #7766
[mk-app] #7767 = #7766 #7763
[instance] 0x0 #7767
[attach-enode] #7767 0
[end-of-instance]
[mk-app] #7766 fuel_bool_default #1182
[mk-app] #7767 fuel_bool #1182
[attach-meaning] #289 arith 128
[mk-app] #7768 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #1896 #32 #33
[mk-app] #7769 = #7768 #6504
[attach-meaning] #289 arith 128
[mk-app] #7770 pattern #7768
[mk-quant] #7771 internal_vstd!std_specs.range.impl&__29.spec_steps_between_int.?_definition 2 #7770 #7769
[attach-var-names] #7771 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7772 => #7767 #7771
[mk-app] #7773 not #7767
[mk-app] #7774 or #7773 #7771
[inst-discovered] theory-solving 0x0 basic# ; #7772
[mk-app] #7775 = #7772 #7774
[instance] 0x0 #7775
[attach-enode] #7775 0
[end-of-instance]
[mk-app] #7775 fuel_bool_default #1184
[mk-app] #7776 fuel_bool #1184
[attach-meaning] #289 arith 128
[mk-app] #7777 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #1896 #32 #33
[mk-app] #7778 Int
[attach-meaning] #7778 arith 170141183460469231731687303715884105727
[mk-app] #7779 <= #6518 #7778
[attach-meaning] #289 arith 128
[mk-app] #7780 iClip #289 #6518
[mk-app] #7781 I #7780
[mk-app] #7782 core!option.Option./Some #7781
[mk-app] #7783 if #7779 #7782 #2127
[mk-app] #7784 Poly%core!option.Option. #7783
[mk-app] #7785 = #7777 #7784
[attach-meaning] #289 arith 128
[mk-app] #7786 pattern #7777
[mk-quant] #7787 internal_vstd!std_specs.range.impl&__29.spec_forward_checked_int.?_definition 2 #7786 #7785
[attach-var-names] #7787 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7788 => #7776 #7787
[mk-app] #7789 not #7776
[mk-app] #7790 or #7789 #7787
[inst-discovered] theory-solving 0x0 basic# ; #7788
[mk-app] #7791 = #7788 #7790
[instance] 0x0 #7791
[attach-enode] #7791 0
[end-of-instance]
[mk-app] #7791 fuel_bool_default #1183
[mk-app] #7792 fuel_bool #1183
[attach-meaning] #289 arith 128
[mk-app] #7793 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1896 #32 #33
[attach-meaning] #289 arith 128
[mk-app] #7794 = #7793 #7777
[attach-meaning] #289 arith 128
[mk-app] #7795 pattern #7793
[mk-quant] #7796 internal_vstd!std_specs.range.impl&__29.spec_forward_checked.?_definition 2 #7795 #7794
[attach-var-names] #7796 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7797 => #7792 #7796
[mk-app] #7798 not #7792
[mk-app] #7799 or #7798 #7796
[inst-discovered] theory-solving 0x0 basic# ; #7797
[mk-app] #7800 = #7797 #7799
[instance] 0x0 #7800
[attach-enode] #7800 0
[end-of-instance]
[attach-meaning] #289 arith 128
[mk-app] #7800 tr_bound%core!iter.range.Step. #120 #1896
[attach-meaning] #289 arith 128
[mk-app] #7801 tr_bound%vstd!std_specs.iter.StepSpec. #120 #1896
[mk-app] #7802 fuel_bool #1185
[attach-meaning] #289 arith 128
[mk-app] #7803 TYPE%core!ops.range.Range. #120 #1896
[mk-app] #7804 has_type #33 #7803
[attach-meaning] #289 arith 128
[mk-app] #7805 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #1896 #2332 #2344
[mk-app] #7806 %B #7805
[attach-meaning] #289 arith 128
[mk-app] #7807 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #1896 #2332 #6557
[mk-app] #7808 %Poly%core!option.Option. #7807
[mk-app] #7809 is-core!option.Option./Some #7808
[attach-meaning] #289 arith 128
[mk-app] #7810 Poly%core!option.Option. #7808
[mk-app] #7811 %Poly%core!option.Option. #7810
[mk-app] #7812 core!option.Option./Some/0 #120 #1896 #7811
[mk-app] #7813 %I #7812
[attach-meaning] #289 arith 128
[mk-app] #7814 vstd!std_specs.range.spec_range_next.? #120 #1896 #33
[mk-app] #7815 I #7813
[mk-app] #7816 core!ops.range.Range./Range #7815 #2344
[mk-app] #7817 Poly%core!ops.range.Range. #7816
[mk-app] #7818 tuple%2./tuple%2 #7817 #6570
[mk-app] #7819 = #7814 #7818
[mk-app] #7820 => #7809 #7819
[mk-app] #7821 => #7806 #7820
[attach-meaning] #289 arith 128
[mk-app] #7822 not #7806
[attach-meaning] #289 arith 128
[mk-app] #7823 = #7814 #6576
[mk-app] #7824 => #7822 #7823
[mk-app] #7825 and #7821 #7824
[mk-app] #7826 => #7804 #7825
[attach-meaning] #289 arith 128
[mk-app] #7827 pattern #7814
[mk-quant] #7828 user_vstd__std_specs__range__axiom_spec_range_next_i128_0 1 #7827 #7826
[attach-var-names] #7828 (|range!| ; |Poly|)
[mk-app] #7829 => #7802 #7828
[mk-app] #7830 is #7808
[inst-discovered] theory-solving 0x0 datatype# ; #7809
[mk-app] #7831 = #7809 #7830
[instance] 0x0 #7831
[attach-enode] #7831 0
[end-of-instance]
[mk-app] #7831 not #7830
[mk-app] #7832 or #7831 #7819
[mk-app] #7833 => #7830 #7819
[inst-discovered] theory-solving 0x0 basic# ; #7833
[mk-app] #7834 = #7833 #7832
[instance] 0x0 #7834
[attach-enode] #7834 0
[end-of-instance]
[mk-app] #7833 or #7822 #7831 #7819
[mk-app] #7834 => #7806 #7832
[inst-discovered] theory-solving 0x0 basic# ; #7834
[mk-app] #7835 = #7834 #7833
[instance] 0x0 #7835
[attach-enode] #7835 0
[end-of-instance]
[mk-app] #7832 or #7806 #7823
[inst-discovered] theory-solving 0x0 basic# ; #7824
[mk-app] #7834 = #7824 #7832
[instance] 0x0 #7834
[attach-enode] #7834 0
[end-of-instance]
[mk-app] #7834 and #7833 #7832
[mk-app] #7835 not #7804
[mk-app] #7836 or #7835 #7834
[mk-app] #7837 => #7804 #7834
[inst-discovered] theory-solving 0x0 basic# ; #7837
[mk-app] #7838 = #7837 #7836
[instance] 0x0 #7838
[attach-enode] #7838 0
[end-of-instance]
[mk-quant] #7837 user_vstd__std_specs__range__axiom_spec_range_next_i128_0 1 #7827 #7836
[attach-var-names] #7837 (|range!| ; |Poly|)
[mk-app] #7838 not #7802
[mk-app] #7839 or #7838 #7837
[mk-app] #7840 => #7802 #7837
[inst-discovered] theory-solving 0x0 basic# ; #7840
[mk-app] #7841 = #7840 #7839
[instance] 0x0 #7841
[attach-enode] #7841 0
[end-of-instance]
[mk-app] #7840 tr_bound%core!clone.Clone. #120 #211
[mk-app] #7841 fuel_bool_default #840
[mk-app] #7842 fuel_bool #840
[mk-app] #7843 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #120 #211 #120 #211
[mk-app] #7844 = #7843 #6282
[mk-app] #7845 => #7842 #7844
[mk-app] #7846 not #7842
[mk-app] #7847 or #7846 #7844
[inst-discovered] theory-solving 0x0 basic# ; #7845
[mk-app] #7848 = #7845 #7847
[instance] 0x0 #7848
[attach-enode] #7848 0
[end-of-instance]
[mk-app] #7848 fuel_bool_default #841
[mk-app] #7849 fuel_bool #841
[mk-app] #7850 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #120 #211 #120 #211 #32 #33
[mk-app] #7851 = #7850 #6290
[mk-app] #7852 pattern #7850
[mk-quant] #7853 internal_vstd!std_specs.num.isize_specs_tmp.impl&__0.eq_spec.?_definition 2 #7852 #7851
[attach-var-names] #7853 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7854 => #7849 #7853
[mk-app] #7855 not #7849
[mk-app] #7856 or #7855 #7853
[inst-discovered] theory-solving 0x0 basic# ; #7854
[mk-app] #7857 = #7854 #7856
[instance] 0x0 #7857
[attach-enode] #7857 0
[end-of-instance]
[mk-app] #7857 tr_bound%core!cmp.PartialEq. #120 #211 #120 #211
[mk-app] #7858 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #120 #211 #120 #211
[mk-app] #7859 fuel_bool_default #842
[mk-app] #7860 fuel_bool #842
[mk-app] #7861 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #120 #211 #120 #211
[mk-app] #7862 = #7861 #6282
[mk-app] #7863 => #7860 #7862
[mk-app] #7864 not #7860
[mk-app] #7865 or #7864 #7862
[inst-discovered] theory-solving 0x0 basic# ; #7863
[mk-app] #7866 = #7863 #7865
[instance] 0x0 #7866
[attach-enode] #7866 0
[end-of-instance]
[mk-app] #7866 fuel_bool_default #843
[mk-app] #7867 fuel_bool #843
[mk-app] #7868 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #120 #211 #120 #211 #32 #33
[mk-app] #7869 = #7868 #6439
[mk-app] #7870 pattern #7868
[mk-quant] #7871 internal_vstd!std_specs.num.isize_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7870 #7869
[attach-var-names] #7871 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7872 => #7867 #7871
[mk-app] #7873 <= #186 #676
[mk-app] #7874 not #7873
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7875 = #6426 #7874
[instance] 0x0 #7875
[attach-enode] #7875 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7873
[mk-app] #7875 = #7873 #6446
[instance] 0x0 #7875
[attach-enode] #7875 0
[end-of-instance]
[mk-app] #7875 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #6430
[mk-app] #7876 = #6430 #7875
[instance] 0x0 #7876
[attach-enode] #7876 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7876 * #365 #186
[mk-app] #7877 + #7876 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #7876 = #5258 #5266
[instance] 0x0 #7876
[attach-enode] #7876 0
[end-of-instance]
[mk-app] #7876 not #5266
[mk-app] #7877 if #7876 #6433 #6436
[inst-discovered] theory-solving 0x0 datatype# ; #7877
[mk-app] #7878 = #7877 #6450
[instance] 0x0 #7878
[attach-enode] #7878 0
[end-of-instance]
[mk-app] #7877 if #6497 #6429 #6450
[inst-discovered] theory-solving 0x0 datatype# ; #7877
[mk-app] #7878 = #7877 #6451
[instance] 0x0 #7878
[attach-enode] #7878 0
[end-of-instance]
[mk-app] #7877 = #7868 #6452
[mk-quant] #7878 internal_vstd!std_specs.num.isize_specs_tmp.impl&__1.partial_cmp_spec.?_definition 2 #7870 #7877
[attach-var-names] #7878 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7873 not #7867
[mk-app] #7874 or #7873 #7878
[mk-app] #7876 => #7867 #7878
[inst-discovered] theory-solving 0x0 basic# ; #7876
[mk-app] #7875 = #7876 #7874
[instance] 0x0 #7875
[attach-enode] #7875 0
[end-of-instance]
[mk-app] #7876 tr_bound%core!cmp.PartialOrd. #120 #211 #120 #211
[mk-app] #7875 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #120 #211 #120 #211
[mk-app] #7879 fuel_bool_default #1186
[mk-app] #7880 fuel_bool #1186
[mk-app] #7881 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #211 #32 #33
[mk-app] #7882 = #7881 #6490
[mk-app] #7883 pattern #7881
[mk-quant] #7884 internal_vstd!std_specs.range.impl&__30.spec_is_lt.?_definition 2 #7883 #7882
[attach-var-names] #7884 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7885 => #7880 #7884
[mk-app] #7886 <= #186 #676
[mk-app] #7887 not #7886
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #7888 = #6426 #7887
[instance] 0x0 #7888
[attach-enode] #7888 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7886
[mk-app] #7888 = #7886 #6446
[instance] 0x0 #7888
[attach-enode] #7888 0
[end-of-instance]
[mk-app] #7888 = #7881 #6498
[mk-quant] #7889 internal_vstd!std_specs.range.impl&__30.spec_is_lt.?_definition 2 #7883 #7888
[attach-var-names] #7889 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7886 not #7880
[mk-app] #7887 or #7886 #7889
[mk-app] #7890 => #7880 #7889
[inst-discovered] theory-solving 0x0 basic# ; #7890
[mk-app] #7891 = #7890 #7887
[instance] 0x0 #7891
[attach-enode] #7891 0
[end-of-instance]
[mk-app] #7890 fuel_bool_default #1187
[mk-app] #7891 fuel_bool #1187
[mk-app] #7892 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #211 #32 #33
[mk-app] #7893 = #7892 #6504
[mk-app] #7894 pattern #7892
[mk-quant] #7895 internal_vstd!std_specs.range.impl&__30.spec_steps_between_int.?_definition 2 #7894 #7893
[attach-var-names] #7895 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7896 => #7891 #7895
[mk-app] #7897 not #7891
[mk-app] #7898 or #7897 #7895
[inst-discovered] theory-solving 0x0 basic# ; #7896
[mk-app] #7899 = #7896 #7898
[instance] 0x0 #7899
[attach-enode] #7899 0
[end-of-instance]
[mk-app] #7899 fuel_bool_default #1189
[mk-app] #7900 fuel_bool #1189
[mk-app] #7901 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #211 #32 #33
[mk-app] #7902 iHi #269
[mk-app] #7903 - #7902 #291
[mk-app] #7904 <= #6518 #7903
[mk-app] #7905 iClip #269 #6518
[mk-app] #7906 I #7905
[mk-app] #7907 core!option.Option./Some #7906
[mk-app] #7908 if #7904 #7907 #2127
[mk-app] #7909 Poly%core!option.Option. #7908
[mk-app] #7910 = #7901 #7909
[mk-app] #7911 pattern #7901
[mk-quant] #7912 internal_vstd!std_specs.range.impl&__30.spec_forward_checked_int.?_definition 2 #7911 #7910
[attach-var-names] #7912 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7913 => #7900 #7912
[attach-meaning] #365 arith (- 1)
[mk-app] #7914 * #365 #291
[mk-app] #7915 + #7902 #7914
[inst-discovered] theory-solving 0x0 arith# ; #7903
[mk-app] #7916 = #7903 #7915
[instance] 0x0 #7916
[attach-enode] #7916 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7914
[mk-app] #7916 = #7914 #365
[instance] 0x0 #7916
[attach-enode] #7916 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7916 + #365 #7902
[mk-app] #7917 + #7902 #365
[inst-discovered] theory-solving 0x0 arith# ; #7917
[mk-app] #7918 = #7917 #7916
[instance] 0x0 #7918
[attach-enode] #7918 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #7917 * #365 #7902
[attach-meaning] #365 arith (- 1)
[mk-app] #7918 + #6518 #7917
[mk-app] #7919 <= #7918 #365
[mk-app] #7920 <= #6518 #7916
[inst-discovered] theory-solving 0x0 arith# ; #7920
[mk-app] #7921 = #7920 #7919
[instance] 0x0 #7921
[attach-enode] #7921 0
[end-of-instance]
[mk-app] #7920 if #7919 #7907 #2127
[mk-app] #7921 Poly%core!option.Option. #7920
[mk-app] #7922 = #7901 #7921
[mk-quant] #7923 internal_vstd!std_specs.range.impl&__30.spec_forward_checked_int.?_definition 2 #7911 #7922
[attach-var-names] #7923 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7916 not #7900
[mk-app] #7914 or #7916 #7923
[mk-app] #7915 => #7900 #7923
[inst-discovered] theory-solving 0x0 basic# ; #7915
[mk-app] #7924 = #7915 #7914
[instance] 0x0 #7924
[attach-enode] #7924 0
[end-of-instance]
[mk-app] #7915 fuel_bool_default #1188
[mk-app] #7924 fuel_bool #1188
[mk-app] #7925 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #211 #32 #33
[mk-app] #7926 = #7925 #7901
[mk-app] #7927 pattern #7925
[mk-quant] #7928 internal_vstd!std_specs.range.impl&__30.spec_forward_checked.?_definition 2 #7927 #7926
[attach-var-names] #7928 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #7929 => #7924 #7928
[mk-app] #7930 not #7924
[mk-app] #7931 or #7930 #7928
[inst-discovered] theory-solving 0x0 basic# ; #7929
[mk-app] #7932 = #7929 #7931
[instance] 0x0 #7932
[attach-enode] #7932 0
[end-of-instance]
[mk-app] #7932 tr_bound%core!iter.range.Step. #120 #211
[mk-app] #7933 tr_bound%vstd!std_specs.iter.StepSpec. #120 #211
[mk-app] #7934 fuel_bool #1190
[mk-app] #7935 TYPE%core!ops.range.Range. #120 #211
[mk-app] #7936 has_type #33 #7935
[mk-app] #7937 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #211 #2332 #2344
[mk-app] #7938 %B #7937
[mk-app] #7939 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #211 #2332 #6557
[mk-app] #7940 %Poly%core!option.Option. #7939
[mk-app] #7941 is-core!option.Option./Some #7940
[mk-app] #7942 Poly%core!option.Option. #7940
[mk-app] #7943 %Poly%core!option.Option. #7942
[mk-app] #7944 core!option.Option./Some/0 #120 #211 #7943
[mk-app] #7945 %I #7944
[mk-app] #7946 vstd!std_specs.range.spec_range_next.? #120 #211 #33
[mk-app] #7947 I #7945
[mk-app] #7948 core!ops.range.Range./Range #7947 #2344
[mk-app] #7949 Poly%core!ops.range.Range. #7948
[mk-app] #7950 tuple%2./tuple%2 #7949 #6570
[mk-app] #7951 = #7946 #7950
[mk-app] #7952 => #7941 #7951
[mk-app] #7953 => #7938 #7952
[mk-app] #7954 not #7938
[mk-app] #7955 = #7946 #6576
[mk-app] #7956 => #7954 #7955
[mk-app] #7957 and #7953 #7956
[mk-app] #7958 => #7936 #7957
[mk-app] #7959 pattern #7946
[mk-quant] #7960 user_vstd__std_specs__range__axiom_spec_range_next_isize_0 1 #7959 #7958
[attach-var-names] #7960 (|range!| ; |Poly|)
[mk-app] #7961 => #7934 #7960
[mk-app] #7962 is #7940
[inst-discovered] theory-solving 0x0 datatype# ; #7941
[mk-app] #7963 = #7941 #7962
[instance] 0x0 #7963
[attach-enode] #7963 0
[end-of-instance]
[mk-app] #7963 not #7962
[mk-app] #7964 or #7963 #7951
[mk-app] #7965 => #7962 #7951
[inst-discovered] theory-solving 0x0 basic# ; #7965
[mk-app] #7966 = #7965 #7964
[instance] 0x0 #7966
[attach-enode] #7966 0
[end-of-instance]
[mk-app] #7965 or #7954 #7963 #7951
[mk-app] #7966 => #7938 #7964
[inst-discovered] theory-solving 0x0 basic# ; #7966
[mk-app] #7967 = #7966 #7965
[instance] 0x0 #7967
[attach-enode] #7967 0
[end-of-instance]
[mk-app] #7964 or #7938 #7955
[inst-discovered] theory-solving 0x0 basic# ; #7956
[mk-app] #7966 = #7956 #7964
[instance] 0x0 #7966
[attach-enode] #7966 0
[end-of-instance]
[mk-app] #7966 and #7965 #7964
[mk-app] #7967 not #7936
[mk-app] #7968 or #7967 #7966
[mk-app] #7969 => #7936 #7966
[inst-discovered] theory-solving 0x0 basic# ; #7969
[mk-app] #7970 = #7969 #7968
[instance] 0x0 #7970
[attach-enode] #7970 0
[end-of-instance]
[mk-quant] #7969 user_vstd__std_specs__range__axiom_spec_range_next_isize_0 1 #7959 #7968
[attach-var-names] #7969 (|range!| ; |Poly|)
[mk-app] #7970 not #7934
[mk-app] #7971 or #7970 #7969
[mk-app] #7972 => #7934 #7969
[inst-discovered] theory-solving 0x0 basic# ; #7972
[mk-app] #7973 = #7972 #7971
[instance] 0x0 #7973
[attach-enode] #7973 0
[end-of-instance]
[mk-app] #7972 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #64 #65 #33
[mk-app] #7973 has_type #7972 #135
[mk-app] #7974 => #68 #7973
[mk-app] #7975 pattern #7972
[mk-quant] #7976 internal_vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.?_pre_post_definition 3 #7975 #7974
[attach-var-names] #7976 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7977 or #2139 #7973
[inst-discovered] theory-solving 0x0 basic# ; #7974
[mk-app] #7978 = #7974 #7977
[instance] 0x0 #7978
[attach-enode] #7978 0
[end-of-instance]
[mk-quant] #7978 internal_vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.?_pre_post_definition 3 #7975 #7977
[attach-var-names] #7978 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7979 vstd!std_specs.iter.IteratorSpec.will_return_none.? #64 #65 #33
[mk-app] #7980 has_type #7979 #135
[mk-app] #7981 => #68 #7980
[mk-app] #7982 pattern #7979
[mk-quant] #7983 internal_vstd!std_specs.iter.IteratorSpec.will_return_none.?_pre_post_definition 3 #7982 #7981
[attach-var-names] #7983 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7984 or #2139 #7980
[inst-discovered] theory-solving 0x0 basic# ; #7981
[mk-app] #7985 = #7981 #7984
[instance] 0x0 #7985
[attach-enode] #7985 0
[end-of-instance]
[mk-quant] #7985 internal_vstd!std_specs.iter.IteratorSpec.will_return_none.?_pre_post_definition 3 #7982 #7984
[attach-var-names] #7985 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7986 vstd!std_specs.iter.IteratorSpec.decrease.? #64 #65 #33
[mk-app] #7987 TYPE%core!option.Option. #120 #195
[mk-app] #7988 has_type #7986 #7987
[mk-app] #7989 => #68 #7988
[mk-app] #7990 pattern #7986
[mk-quant] #7991 internal_vstd!std_specs.iter.IteratorSpec.decrease.?_pre_post_definition 3 #7990 #7989
[attach-var-names] #7991 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7992 or #2139 #7988
[inst-discovered] theory-solving 0x0 basic# ; #7989
[mk-app] #7993 = #7989 #7992
[instance] 0x0 #7993
[attach-enode] #7993 0
[end-of-instance]
[mk-quant] #7993 internal_vstd!std_specs.iter.IteratorSpec.decrease.?_pre_post_definition 3 #7990 #7992
[attach-var-names] #7993 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7994 vstd!std_specs.iter.IteratorSpec.remaining.? #64 #65 #33
[mk-app] #7995 has_type #7994 #2270
[mk-app] #7996 => #68 #7995
[mk-app] #7997 pattern #7994
[mk-quant] #7998 internal_vstd!std_specs.iter.IteratorSpec.remaining.?_pre_post_definition 3 #7997 #7996
[attach-var-names] #7998 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7999 or #2139 #7995
[inst-discovered] theory-solving 0x0 basic# ; #7996
[mk-app] #8000 = #7996 #7999
[instance] 0x0 #8000
[attach-enode] #8000 0
[end-of-instance]
[mk-quant] #8000 internal_vstd!std_specs.iter.IteratorSpec.remaining.?_pre_post_definition 3 #7997 #7999
[attach-var-names] #8000 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8001 req%vstd!seq_lib.impl&%0.drop_first. #64 #65 #33
[mk-app] #8002 %%global_location_label%%6
[mk-app] #8003 >= #5179 #291
[mk-app] #8004 => #8002 #8003
[mk-app] #8005 = #8001 #8004
[mk-app] #8006 pattern #8001
[mk-quant] #8007 internal_req__vstd!seq_lib.impl&__0.drop_first._definition 3 #8006 #8005
[attach-var-names] #8007 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8008 not #8002
[mk-app] #8009 or #8008 #8003
[inst-discovered] theory-solving 0x0 basic# ; #8004
[mk-app] #8010 = #8004 #8009
[instance] 0x0 #8010
[attach-enode] #8010 0
[end-of-instance]
[mk-app] #8010 = #8001 #8009
[mk-quant] #8011 internal_req__vstd!seq_lib.impl&__0.drop_first._definition 3 #8006 #8010
[attach-var-names] #8011 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8012 fuel_bool_default #1258
[mk-app] #8013 fuel_bool #1258
[mk-app] #8014 vstd!seq_lib.impl&%0.drop_first.? #64 #65 #33
[mk-app] #8015 I #5179
[mk-app] #8016 vstd!seq.Seq.subrange.? #64 #65 #33 #6557 #8015
[mk-app] #8017 = #8014 #8016
[mk-app] #8018 pattern #8014
[mk-quant] #8019 internal_vstd!seq_lib.impl&__0.drop_first.?_definition 3 #8018 #8017
[attach-var-names] #8019 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8020 => #8013 #8019
[mk-app] #8021 not #8013
[mk-app] #8022 or #8021 #8019
[inst-discovered] theory-solving 0x0 basic# ; #8020
[mk-app] #8023 = #8020 #8022
[instance] 0x0 #8023
[attach-enode] #8023 0
[end-of-instance]
[mk-app] #8023 has_type #8014 #5177
[mk-app] #8024 => #5178 #8023
[mk-quant] #8025 internal_vstd!seq_lib.impl&__0.drop_first.?_pre_post_definition 3 #8018 #8024
[attach-var-names] #8025 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8026 or #5184 #8023
[inst-discovered] theory-solving 0x0 basic# ; #8024
[mk-app] #8027 = #8024 #8026
[instance] 0x0 #8027
[attach-enode] #8027 0
[end-of-instance]
[mk-quant] #8027 internal_vstd!seq_lib.impl&__0.drop_first.?_pre_post_definition 3 #8018 #8026
[attach-var-names] #8027 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8028 vstd!std_specs.option.OptionAdditionalFns.arrow_0.? #1560 #1561 #64 #65 #33
[mk-app] #8029 has_type #8028 #65
[mk-app] #8030 => #5445 #8029
[mk-app] #8031 pattern #8028
[mk-quant] #8032 internal_vstd!std_specs.option.OptionAdditionalFns.arrow_0.?_pre_post_definition 5 #8031 #8030
[attach-var-names] #8032 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8033 not #5445
[mk-app] #8034 or #8033 #8029
[inst-discovered] theory-solving 0x0 basic# ; #8030
[mk-app] #8035 = #8030 #8034
[instance] 0x0 #8035
[attach-enode] #8035 0
[end-of-instance]
[mk-quant] #8035 internal_vstd!std_specs.option.OptionAdditionalFns.arrow_0.?_pre_post_definition 5 #8031 #8034
[attach-var-names] #8035 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8036 fuel_bool_default #1116
[mk-app] #8037 fuel_bool #1116
[mk-app] #8038 vstd!std_specs.option.OptionAdditionalFns.arrow_0.? #120 #2116 #64 #65 #33
[mk-app] #8039 = #8038 #2153
[mk-app] #8040 => #5769 #8039
[mk-app] #8041 pattern #8038
[mk-quant] #8042 internal_vstd!std_specs.option.impl&__0.arrow_0.?_definition 3 #8041 #8040
[attach-var-names] #8042 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8043 => #8037 #8042
[mk-app] #8044 or #5777 #8039
[inst-discovered] theory-solving 0x0 basic# ; #8040
[mk-app] #8045 = #8040 #8044
[instance] 0x0 #8045
[attach-enode] #8045 0
[end-of-instance]
[mk-quant] #8045 internal_vstd!std_specs.option.impl&__0.arrow_0.?_definition 3 #8041 #8044
[attach-var-names] #8045 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8046 not #8037
[mk-app] #8047 or #8046 #8045
[mk-app] #8048 => #8037 #8045
[inst-discovered] theory-solving 0x0 basic# ; #8048
[mk-app] #8049 = #8048 #8047
[instance] 0x0 #8049
[attach-enode] #8049 0
[end-of-instance]
[mk-app] #8048 tr_bound%vstd!std_specs.option.OptionAdditionalFns. #120 #2129 #44 #45
[mk-app] #8049 => #2788 #8048
[mk-app] #8050 pattern #8048
[mk-quant] #8051 internal_vstd__std_specs__option__impl&__0_trait_impl_definition 2 #8050 #8049
[attach-var-names] #8051 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8052 or #3429 #8048
[inst-discovered] theory-solving 0x0 basic# ; #8049
[mk-app] #8053 = #8049 #8052
[instance] 0x0 #8053
[attach-enode] #8053 0
[end-of-instance]
[mk-quant] #8053 internal_vstd__std_specs__option__impl&__0_trait_impl_definition 2 #8050 #8052
[attach-var-names] #8053 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8054 ens%core!iter.traits.iterator.Iterator.next. #1593 #263 #32 #33
[mk-app] #8055 TYPE%core!option.Option. #5076 #5085
[mk-app] #8056 has_type #33 #8055
[mk-app] #8057 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #1593 #263 #40
[mk-app] #8058 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #1593 #263 #5699
[mk-app] #8059 = #8057 #8058
[mk-app] #8060 %B #8057
[mk-app] #8061 vstd!std_specs.iter.IteratorSpec.will_return_none.? #1593 #263 #40
[mk-app] #8062 vstd!std_specs.iter.IteratorSpec.will_return_none.? #1593 #263 #5699
[mk-app] #8063 = #8061 #8062
[mk-app] #8064 => #8060 #8063
[mk-app] #8065 vstd!std_specs.iter.IteratorSpec.decrease.? #1593 #263 #5699
[mk-app] #8066 %Poly%core!option.Option. #8065
[mk-app] #8067 is-core!option.Option./Some #8066
[mk-app] #8068 vstd!std_specs.iter.IteratorSpec.decrease.? #1593 #263 #40
[mk-app] #8069 %Poly%core!option.Option. #8068
[mk-app] #8070 is-core!option.Option./Some #8069
[mk-app] #8071 = #8067 #8070
[mk-app] #8072 => #8060 #8071
[mk-app] #8073 vstd!std_specs.iter.IteratorSpec.remaining.? #1593 #263 #5699
[mk-app] #8074 vstd!seq.Seq.len.? #5076 #5085 #8073
[mk-app] #8075 > #8074 #336
[mk-app] #8076 vstd!std_specs.iter.IteratorSpec.remaining.? #1593 #263 #40
[mk-app] #8077 vstd!seq_lib.impl&%0.drop_first.? #5076 #5085 #8073
[mk-app] #8078 = #8076 #8077
[mk-app] #8079 I #336
[mk-app] #8080 vstd!seq.Seq.index.? #5076 #5085 #8073 #8079
[mk-app] #8081 core!option.Option./Some #8080
[mk-app] #8082 = #2118 #8081
[mk-app] #8083 and #8078 #8082
[mk-app] #8084 = #8076 #8073
[mk-app] #8085 = #2118 #2127
[mk-app] #8086 and #8084 #8085
[mk-app] #8087 %B #8061
[mk-app] #8088 and #8086 #8087
[mk-app] #8089 if #8075 #8083 #8088
[mk-app] #8090 => #8060 #8089
[mk-app] #8091 and #8060 #8075
[mk-app] #8092 and #8091 #8070
[mk-app] #8093 core!option.Option./Some/0 #120 #195 #8069
[mk-app] #8094 %I #8093
[mk-app] #8095 <= #336 #8094
[mk-app] #8096 core!option.Option./Some/0 #120 #195 #8066
[mk-app] #8097 %I #8096
[mk-app] #8098 < #8094 #8097
[mk-app] #8099 and #8095 #8098
[mk-app] #8100 => #8092 #8099
[mk-app] #8101 and #8056 #8059 #8064 #8072 #8090 #8100
[mk-app] #8102 = #8054 #8101
[mk-app] #8103 pattern #8054
[mk-quant] #8104 internal_ens__core!iter.traits.iterator.Iterator.next._definition 4 #8103 #8102
[attach-var-names] #8104 (|ret!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8105 not #8060
[mk-app] #8106 or #8105 #8063
[inst-discovered] theory-solving 0x0 basic# ; #8064
[mk-app] #8107 = #8064 #8106
[instance] 0x0 #8107
[attach-enode] #8107 0
[end-of-instance]
[mk-app] #8107 is #8066
[inst-discovered] theory-solving 0x0 datatype# ; #8067
[mk-app] #8108 = #8067 #8107
[instance] 0x0 #8108
[attach-enode] #8108 0
[end-of-instance]
[mk-app] #8108 is #8069
[inst-discovered] theory-solving 0x0 datatype# ; #8070
[mk-app] #8109 = #8070 #8108
[instance] 0x0 #8109
[attach-enode] #8109 0
[end-of-instance]
[mk-app] #8109 = #8107 #8108
[mk-app] #8110 or #8105 #8109
[mk-app] #8111 => #8060 #8109
[inst-discovered] theory-solving 0x0 basic# ; #8111
[mk-app] #8112 = #8111 #8110
[instance] 0x0 #8112
[attach-enode] #8112 0
[end-of-instance]
[mk-app] #8111 <= #8074 #336
[mk-app] #8112 not #8111
[inst-discovered] theory-solving 0x0 arith# ; #8075
[mk-app] #8113 = #8075 #8112
[instance] 0x0 #8113
[attach-enode] #8113 0
[end-of-instance]
[mk-app] #8113 and #8084 #8085 #8087
[mk-app] #8114 if #8111 #8113 #8083
[mk-app] #8115 if #8112 #8083 #8113
[inst-discovered] theory-solving 0x0 basic# ; #8115
[mk-app] #8116 = #8115 #8114
[instance] 0x0 #8116
[attach-enode] #8116 0
[end-of-instance]
[mk-app] #8115 or #8105 #8114
[mk-app] #8116 => #8060 #8114
[inst-discovered] theory-solving 0x0 basic# ; #8116
[mk-app] #8117 = #8116 #8115
[instance] 0x0 #8117
[attach-enode] #8117 0
[end-of-instance]
[mk-app] #8116 and #8060 #8112 #8108
[attach-meaning] #365 arith (- 1)
[mk-app] #8117 * #365 #8094
[mk-app] #8118 >= #8094 #336
[inst-discovered] theory-solving 0x0 arith# ; #8095
[mk-app] #8117 = #8095 #8118
[instance] 0x0 #8117
[attach-enode] #8117 0
[end-of-instance]
[mk-app] #8117 <= #8097 #8094
[mk-app] #8119 not #8117
[inst-discovered] theory-solving 0x0 arith# ; #8098
[mk-app] #8120 = #8098 #8119
[instance] 0x0 #8120
[attach-enode] #8120 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #8120 * #365 #8094
[mk-app] #8121 + #8120 #8097
[attach-meaning] #365 arith (- 1)
[mk-app] #8122 * #365 #8097
[mk-app] #8123 + #8094 #8122
[mk-app] #8120 >= #8123 #336
[inst-discovered] theory-solving 0x0 arith# ; #8117
[mk-app] #8121 = #8117 #8120
[instance] 0x0 #8121
[attach-enode] #8121 0
[end-of-instance]
[mk-app] #8121 not #8120
[mk-app] #8124 and #8118 #8121
[mk-app] #8125 not #8116
[mk-app] #8126 or #8125 #8124
[mk-app] #8127 => #8116 #8124
[inst-discovered] theory-solving 0x0 basic# ; #8127
[mk-app] #8128 = #8127 #8126
[instance] 0x0 #8128
[attach-enode] #8128 0
[end-of-instance]
[mk-app] #8127 and #8056 #8059 #8106 #8110 #8115 #8126
[mk-app] #8128 = #8054 #8127
[mk-quant] #8129 internal_ens__core!iter.traits.iterator.Iterator.next._definition 4 #8103 #8128
[attach-var-names] #8129 (|ret!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8117 has_type #43 #5144
[mk-app] #8119 %Poly%tuple%1. #43
[mk-app] #8130 tuple%1./tuple%1/0 #8119
[mk-app] #8119 closure_req #2776 #5143 #5144 #6328 #43
[mk-app] #8130 => #1 #8119
[mk-app] #8131 => #8117 #8130
[mk-app] #8132 pattern #8119
[mk-quant] #8133 user_core__iter__traits__iterator__Iterator__next_0 3 #8132 #8131
[attach-var-names] #8133 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|closure%$| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #8130
[mk-app] #8134 = #8130 #8119
[instance] 0x0 #8134
[attach-enode] #8134 0
[end-of-instance]
[mk-app] #8134 not #8117
[mk-app] #8135 or #8134 #8119
[mk-app] #8136 => #8117 #8119
[inst-discovered] theory-solving 0x0 basic# ; #8136
[mk-app] #8137 = #8136 #8135
[instance] 0x0 #8137
[attach-enode] #8137 0
[end-of-instance]
[mk-quant] #8136 user_core__iter__traits__iterator__Iterator__next_0 3 #8132 #8135
[attach-var-names] #8136 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|closure%$| ; |Poly|)
[mk-app] #8137 has_type #63 #5144
[mk-app] #8138 has_type #43 #5153
[mk-app] #8139 and #8137 #8138
[mk-app] #8140 closure_ens #2776 #5143 #5144 #6328 #63 #43
[mk-app] #8141 %Poly%tuple%1. #63
[mk-app] #8142 tuple%1./tuple%1/0 #8141
[mk-app] #8143 mut_ref_future% #8142
[mk-app] #8144 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #44 #45 #8143
[mk-app] #8145 mut_ref_current% #8142
[mk-app] #8146 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #44 #45 #8145
[mk-app] #8147 = #8144 #8146
[mk-app] #8148 %B #8144
[mk-app] #8149 vstd!std_specs.iter.IteratorSpec.will_return_none.? #44 #45 #8143
[mk-app] #8150 vstd!std_specs.iter.IteratorSpec.will_return_none.? #44 #45 #8145
[mk-app] #8151 = #8149 #8150
[mk-app] #8152 => #8148 #8151
[mk-app] #8153 and #8147 #8152
[mk-app] #8154 vstd!std_specs.iter.IteratorSpec.decrease.? #44 #45 #8145
[mk-app] #8155 %Poly%core!option.Option. #8154
[mk-app] #8156 is-core!option.Option./Some #8155
[mk-app] #8157 vstd!std_specs.iter.IteratorSpec.decrease.? #44 #45 #8143
[mk-app] #8158 %Poly%core!option.Option. #8157
[mk-app] #8159 is-core!option.Option./Some #8158
[mk-app] #8160 = #8156 #8159
[mk-app] #8161 => #8148 #8160
[mk-app] #8162 and #8153 #8161
[mk-app] #8163 vstd!std_specs.iter.IteratorSpec.remaining.? #44 #45 #8145
[mk-app] #8164 vstd!seq.Seq.len.? #2895 #4669 #8163
[mk-app] #8165 > #8164 #336
[mk-app] #8166 vstd!std_specs.iter.IteratorSpec.remaining.? #44 #45 #8143
[mk-app] #8167 vstd!seq_lib.impl&%0.drop_first.? #2895 #4669 #8163
[mk-app] #8168 = #8166 #8167
[mk-app] #8169 %Poly%core!option.Option. #43
[mk-app] #8170 vstd!seq.Seq.index.? #2895 #4669 #8163 #8079
[mk-app] #8171 core!option.Option./Some #8170
[mk-app] #8172 = #8169 #8171
[mk-app] #8173 and #8168 #8172
[mk-app] #8174 = #8166 #8163
[mk-app] #8175 = #8169 #2127
[mk-app] #8176 and #8174 #8175
[mk-app] #8177 %B #8149
[mk-app] #8178 and #8176 #8177
[mk-app] #8179 if #8165 #8173 #8178
[mk-app] #8180 => #8148 #8179
[mk-app] #8181 and #8162 #8180
[mk-app] #8182 and #8148 #8165
[mk-app] #8183 and #8182 #8159
[mk-app] #8184 core!option.Option./Some/0 #120 #195 #8158
[mk-app] #8185 %I #8184
[mk-app] #8186 <= #336 #8185
[mk-app] #8187 core!option.Option./Some/0 #120 #195 #8155
[mk-app] #8188 %I #8187
[mk-app] #8189 < #8185 #8188
[mk-app] #8190 and #8186 #8189
[mk-app] #8191 => #8183 #8190
[mk-app] #8192 and #8181 #8191
[mk-app] #8193 => #8140 #8192
[mk-app] #8194 => #8139 #8193
[mk-app] #8195 pattern #8140
[mk-quant] #8196 user_core__iter__traits__iterator__Iterator__next_1 4 #8195 #8194
[attach-var-names] #8196 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|ret$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #8197 not #8148
[mk-app] #8198 or #8197 #8151
[inst-discovered] theory-solving 0x0 basic# ; #8152
[mk-app] #8199 = #8152 #8198
[instance] 0x0 #8199
[attach-enode] #8199 0
[end-of-instance]
[mk-app] #8199 is #8155
[inst-discovered] theory-solving 0x0 datatype# ; #8156
[mk-app] #8200 = #8156 #8199
[instance] 0x0 #8200
[attach-enode] #8200 0
[end-of-instance]
[mk-app] #8200 is #8158
[inst-discovered] theory-solving 0x0 datatype# ; #8159
[mk-app] #8201 = #8159 #8200
[instance] 0x0 #8201
[attach-enode] #8201 0
[end-of-instance]
[mk-app] #8201 = #8199 #8200
[mk-app] #8202 or #8197 #8201
[mk-app] #8203 => #8148 #8201
[inst-discovered] theory-solving 0x0 basic# ; #8203
[mk-app] #8204 = #8203 #8202
[instance] 0x0 #8204
[attach-enode] #8204 0
[end-of-instance]
[mk-app] #8203 <= #8164 #336
[mk-app] #8204 not #8203
[inst-discovered] theory-solving 0x0 arith# ; #8165
[mk-app] #8205 = #8165 #8204
[instance] 0x0 #8205
[attach-enode] #8205 0
[end-of-instance]
[mk-app] #8205 and #8174 #8175 #8177
[mk-app] #8206 if #8203 #8205 #8173
[mk-app] #8207 if #8204 #8173 #8205
[inst-discovered] theory-solving 0x0 basic# ; #8207
[mk-app] #8208 = #8207 #8206
[instance] 0x0 #8208
[attach-enode] #8208 0
[end-of-instance]
[mk-app] #8207 or #8197 #8206
[mk-app] #8208 => #8148 #8206
[inst-discovered] theory-solving 0x0 basic# ; #8208
[mk-app] #8209 = #8208 #8207
[instance] 0x0 #8209
[attach-enode] #8209 0
[end-of-instance]
[mk-app] #8208 and #8148 #8204 #8200
[attach-meaning] #365 arith (- 1)
[mk-app] #8209 * #365 #8185
[mk-app] #8210 >= #8185 #336
[inst-discovered] theory-solving 0x0 arith# ; #8186
[mk-app] #8209 = #8186 #8210
[instance] 0x0 #8209
[attach-enode] #8209 0
[end-of-instance]
[mk-app] #8209 <= #8188 #8185
[mk-app] #8211 not #8209
[inst-discovered] theory-solving 0x0 arith# ; #8189
[mk-app] #8212 = #8189 #8211
[instance] 0x0 #8212
[attach-enode] #8212 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #8212 * #365 #8185
[mk-app] #8213 + #8212 #8188
[attach-meaning] #365 arith (- 1)
[mk-app] #8214 * #365 #8188
[mk-app] #8215 + #8185 #8214
[mk-app] #8212 >= #8215 #336
[inst-discovered] theory-solving 0x0 arith# ; #8209
[mk-app] #8213 = #8209 #8212
[instance] 0x0 #8213
[attach-enode] #8213 0
[end-of-instance]
[mk-app] #8213 not #8212
[mk-app] #8216 and #8210 #8213
[mk-app] #8217 not #8208
[mk-app] #8218 or #8217 #8216
[mk-app] #8219 => #8208 #8216
[inst-discovered] theory-solving 0x0 basic# ; #8219
[mk-app] #8220 = #8219 #8218
[instance] 0x0 #8220
[attach-enode] #8220 0
[end-of-instance]
[mk-app] #8219 and #8147 #8198 #8202 #8207 #8218
[mk-app] #8220 not #8140
[mk-app] #8221 or #8220 #8219
[mk-app] #8222 => #8140 #8219
[inst-discovered] theory-solving 0x0 basic# ; #8222
[mk-app] #8223 = #8222 #8221
[instance] 0x0 #8223
[attach-enode] #8223 0
[end-of-instance]
[mk-app] #8222 not #8139
[mk-app] #8223 or #8222 #8220 #8219
[mk-app] #8224 => #8139 #8221
[inst-discovered] theory-solving 0x0 basic# ; #8224
[mk-app] #8225 = #8224 #8223
[instance] 0x0 #8225
[attach-enode] #8225 0
[end-of-instance]
[mk-quant] #8221 user_core__iter__traits__iterator__Iterator__next_1 4 #8195 #8223
[attach-var-names] #8221 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|ret$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #8209 vstd!std_specs.iter.into_rev_spec.? #64 #65 #33
[mk-app] #8211 TYPE%core!iter.adapters.rev.Rev. #64 #65
[mk-app] #8224 has_type #8209 #8211
[mk-app] #8225 => #68 #8224
[mk-app] #8226 pattern #8209
[mk-quant] #8227 internal_vstd!std_specs.iter.into_rev_spec.?_pre_post_definition 3 #8226 #8225
[attach-var-names] #8227 (|i!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8228 or #2139 #8224
[inst-discovered] theory-solving 0x0 basic# ; #8225
[mk-app] #8229 = #8225 #8228
[instance] 0x0 #8229
[attach-enode] #8229 0
[end-of-instance]
[mk-quant] #8229 internal_vstd!std_specs.iter.into_rev_spec.?_pre_post_definition 3 #8226 #8228
[attach-var-names] #8229 (|i!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8230 ens%core!iter.traits.iterator.Iterator.rev. #1593 #263 #32 #33
[mk-app] #8231 TYPE%core!iter.adapters.rev.Rev. #1593 #263
[mk-app] #8232 has_type #33 #8231
[mk-app] #8233 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #1593 #263 #32
[mk-app] #8234 %B #8233
[mk-app] #8235 vstd!std_specs.iter.into_rev_spec.? #1593 #263 #32
[mk-app] #8236 = #33 #8235
[mk-app] #8237 vstd!std_specs.iter.rev_post.? #1593 #263 #32 #33
[mk-app] #8238 and #8236 #8237
[mk-app] #8239 => #8234 #8238
[mk-app] #8240 and #8232 #8239
[mk-app] #8241 = #8230 #8240
[mk-app] #8242 pattern #8230
[mk-quant] #8243 internal_ens__core!iter.traits.iterator.Iterator.rev._definition 4 #8242 #8241
[attach-var-names] #8243 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8244 not #8234
[mk-app] #8245 or #8244 #8238
[inst-discovered] theory-solving 0x0 basic# ; #8239
[mk-app] #8246 = #8239 #8245
[instance] 0x0 #8246
[attach-enode] #8246 0
[end-of-instance]
[mk-app] #8246 and #8232 #8245
[mk-app] #8247 = #8230 #8246
[mk-quant] #8248 internal_ens__core!iter.traits.iterator.Iterator.rev._definition 4 #8242 #8247
[attach-var-names] #8248 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8249 vstd!std_specs.iter.IteratorSpec.peek.? #1593 #263 #32 #33
[mk-app] #8250 has_type #8249 #8055
[mk-app] #8251 => #6478 #8250
[mk-app] #8252 pattern #8249
[mk-quant] #8253 internal_vstd!std_specs.iter.IteratorSpec.peek.?_pre_post_definition 4 #8252 #8251
[attach-var-names] #8253 (|index!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8254 or #6484 #8250
[inst-discovered] theory-solving 0x0 basic# ; #8251
[mk-app] #8255 = #8251 #8254
[instance] 0x0 #8255
[attach-enode] #8255 0
[end-of-instance]
[mk-quant] #8255 internal_vstd!std_specs.iter.IteratorSpec.peek.?_pre_post_definition 4 #8252 #8254
[attach-var-names] #8255 (|index!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8256 vstd!std_specs.iter.DoubleEndedIteratorSpec.peek_back.? #1593 #263 #32 #33
[mk-app] #8257 has_type #8256 #8055
[mk-app] #8258 => #6478 #8257
[mk-app] #8259 pattern #8256
[mk-quant] #8260 internal_vstd!std_specs.iter.DoubleEndedIteratorSpec.peek_back.?_pre_post_definition 4 #8259 #8258
[attach-var-names] #8260 (|index!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8261 or #6484 #8257
[inst-discovered] theory-solving 0x0 basic# ; #8258
[mk-app] #8262 = #8258 #8261
[instance] 0x0 #8262
[attach-enode] #8262 0
[end-of-instance]
[mk-quant] #8262 internal_vstd!std_specs.iter.DoubleEndedIteratorSpec.peek_back.?_pre_post_definition 4 #8259 #8261
[attach-var-names] #8262 (|index!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8263 => #2894 #2940
[mk-quant] #8264 internal_vstd__std_specs__iter__impl&__12_trait_impl_definition 2 #2942 #8263
[attach-var-names] #8264 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #8265 or #2900 #2940
[inst-discovered] theory-solving 0x0 basic# ; #8263
[mk-app] #8266 = #8263 #8265
[instance] 0x0 #8266
[attach-enode] #8266 0
[end-of-instance]
[mk-quant] #8266 internal_vstd__std_specs__iter__impl&__12_trait_impl_definition 2 #2942 #8265
[attach-var-names] #8266 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #8267 has_type #33 #8211
[mk-app] #8268 vstd!std_specs.iter.rev_iter.? #64 #65 #33
[mk-app] #8269 has_type #8268 #65
[mk-app] #8270 => #8267 #8269
[mk-app] #8271 pattern #8268
[mk-quant] #8272 internal_vstd!std_specs.iter.rev_iter.?_pre_post_definition 3 #8271 #8270
[attach-var-names] #8272 (|r!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8273 not #8267
[mk-app] #8274 or #8273 #8269
[inst-discovered] theory-solving 0x0 basic# ; #8270
[mk-app] #8275 = #8270 #8274
[instance] 0x0 #8275
[attach-enode] #8275 0
[end-of-instance]
[mk-quant] #8275 internal_vstd!std_specs.iter.rev_iter.?_pre_post_definition 3 #8271 #8274
[attach-var-names] #8275 (|r!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8276 fuel_bool_default #870
[mk-app] #8277 fuel_bool #870
[mk-app] #8278 tr_bound%core!iter.traits.double_ended.DoubleEndedIterator. #64 #65
[mk-app] #8279 tr_bound%vstd!std_specs.iter.DoubleEndedIteratorSpec. #64 #65
[mk-app] #8280 and #5769 #8278 #8279
[mk-app] #8281 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #120 #8211 #33
[mk-app] #8282 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #64 #65 #8268
[mk-app] #8283 = #8281 #8282
[mk-app] #8284 => #8280 #8283
[mk-app] #8285 pattern #8281
[mk-quant] #8286 internal_vstd!std_specs.iter.impl&__0.obeys_prophetic_iter_laws.?_definition 3 #8285 #8284
[attach-var-names] #8286 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8287 => #8277 #8286
[mk-app] #8288 not #8280
[mk-app] #8289 or #8288 #8283
[inst-discovered] theory-solving 0x0 basic# ; #8284
[mk-app] #8290 = #8284 #8289
[instance] 0x0 #8290
[attach-enode] #8290 0
[end-of-instance]
[mk-quant] #8290 internal_vstd!std_specs.iter.impl&__0.obeys_prophetic_iter_laws.?_definition 3 #8285 #8289
[attach-var-names] #8290 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8291 not #8277
[mk-app] #8292 or #8291 #8290
[mk-app] #8293 => #8277 #8290
[inst-discovered] theory-solving 0x0 basic# ; #8293
[mk-app] #8294 = #8293 #8292
[instance] 0x0 #8294
[attach-enode] #8294 0
[end-of-instance]
[mk-app] #8293 fuel_bool_default #871
[mk-app] #8294 fuel_bool #871
[mk-app] #8295 tr_bound%core!iter.traits.double_ended.DoubleEndedIterator. #1593 #263
[mk-app] #8296 tr_bound%vstd!std_specs.iter.DoubleEndedIteratorSpec. #1593 #263
[mk-app] #8297 and #2799 #8295 #8296
[mk-app] #8298 vstd!std_specs.iter.IteratorSpec.peek.? #120 #8231 #32 #33
[mk-app] #8299 vstd!std_specs.iter.rev_iter.? #1593 #263 #32
[mk-app] #8300 vstd!std_specs.iter.DoubleEndedIteratorSpec.peek_back.? #1593 #263 #8299 #33
[mk-app] #8301 = #8298 #8300
[mk-app] #8302 => #8297 #8301
[mk-app] #8303 pattern #8298
[mk-quant] #8304 internal_vstd!std_specs.iter.impl&__0.peek.?_definition 4 #8303 #8302
[attach-var-names] #8304 (|index!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8305 => #8294 #8304
[mk-app] #8306 not #8297
[mk-app] #8307 or #8306 #8301
[inst-discovered] theory-solving 0x0 basic# ; #8302
[mk-app] #8308 = #8302 #8307
[instance] 0x0 #8308
[attach-enode] #8308 0
[end-of-instance]
[mk-quant] #8308 internal_vstd!std_specs.iter.impl&__0.peek.?_definition 4 #8303 #8307
[attach-var-names] #8308 (|index!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8309 not #8294
[mk-app] #8310 or #8309 #8308
[mk-app] #8311 => #8294 #8308
[inst-discovered] theory-solving 0x0 basic# ; #8311
[mk-app] #8312 = #8311 #8310
[instance] 0x0 #8312
[attach-enode] #8312 0
[end-of-instance]
[mk-app] #8311 tr_bound%core!iter.traits.iterator.Iterator. #120 #4984
[mk-app] #8312 => #4983 #8311
[mk-app] #8313 pattern #8311
[mk-quant] #8314 internal_core__iter__adapters__rev__impl&__1_trait_impl_definition 2 #8313 #8312
[attach-var-names] #8314 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8315 or #4990 #8311
[inst-discovered] theory-solving 0x0 basic# ; #8312
[mk-app] #8316 = #8312 #8315
[instance] 0x0 #8316
[attach-enode] #8316 0
[end-of-instance]
[mk-quant] #8316 internal_core__iter__adapters__rev__impl&__1_trait_impl_definition 2 #8313 #8315
[attach-var-names] #8316 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8317 and #2788 #2903 #2947
[mk-app] #8318 tr_bound%vstd!std_specs.iter.IteratorSpec. #120 #4984
[mk-app] #8319 => #8317 #8318
[mk-app] #8320 pattern #8318
[mk-quant] #8321 internal_vstd__std_specs__iter__impl&__0_trait_impl_definition 2 #8320 #8319
[attach-var-names] #8321 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8322 not #8317
[mk-app] #8323 or #8322 #8318
[inst-discovered] theory-solving 0x0 basic# ; #8319
[mk-app] #8324 = #8319 #8323
[instance] 0x0 #8324
[attach-enode] #8324 0
[end-of-instance]
[mk-quant] #8324 internal_vstd__std_specs__iter__impl&__0_trait_impl_definition 2 #8320 #8323
[attach-var-names] #8324 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8325 fuel_bool_default #1259
[mk-var] #8326 4
[mk-app] #8327 %%lambda%%1 #8326 #1593 #263 #32
[mk-app] #8328 %%apply%%0 #8327 #33
[mk-app] #8329 Sub #8326 #186
[mk-app] #8330 I #8329
[mk-app] #8331 vstd!seq.Seq.index.? #1593 #263 #32 #8330
[mk-app] #8332 = #8328 #8331
[mk-app] #8333 pattern #8328
[mk-quant] #8334 k!13164 5 #8333 #8332
[attach-var-names] #8334 (|i$| ; |Poly|) (|%%hole%%3| ; |Poly|) (|%%hole%%2| ; |Type|) (|%%hole%%1| ; |Dcr|) (|%%hole%%0| ; |Int|)
[mk-app] #8335 fuel_bool #1259
[mk-app] #8336 and #5769 #5178
[mk-app] #8337 vstd!seq_lib.impl&%0.reverse.? #64 #65 #33
[mk-app] #8338 = #5179 #336
[mk-app] #8339 vstd!seq.Seq.empty.? #64 #65
[mk-app] #8340 Sub #5179 #291
[mk-app] #8341 %%lambda%%1 #8340 #64 #65 #33
[mk-app] #8342 mk_fun #8341
[mk-app] #8343 Poly%fun%1. #8342
[mk-app] #8344 vstd!seq.Seq.new.? #64 #65 #8015 #8343
[mk-app] #8345 if #8338 #8339 #8344
[mk-app] #8346 = #8337 #8345
[mk-app] #8347 => #8336 #8346
[mk-app] #8348 pattern #8337
[mk-quant] #8349 internal_vstd!seq_lib.impl&__0.reverse.?_definition 3 #8348 #8347
[attach-var-names] #8349 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8350 => #8335 #8349
[mk-app] #8351 not #8336
[mk-app] #8352 or #8351 #8346
[inst-discovered] theory-solving 0x0 basic# ; #8347
[mk-app] #8353 = #8347 #8352
[instance] 0x0 #8353
[attach-enode] #8353 0
[end-of-instance]
[mk-quant] #8353 internal_vstd!seq_lib.impl&__0.reverse.?_definition 3 #8348 #8352
[attach-var-names] #8353 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8354 not #8335
[mk-app] #8355 or #8354 #8353
[mk-app] #8356 => #8335 #8353
[inst-discovered] theory-solving 0x0 basic# ; #8356
[mk-app] #8357 = #8356 #8355
[instance] 0x0 #8357
[attach-enode] #8357 0
[end-of-instance]
[mk-app] #8356 has_type #8337 #5177
[mk-app] #8357 => #5178 #8356
[mk-quant] #8358 internal_vstd!seq_lib.impl&__0.reverse.?_pre_post_definition 3 #8348 #8357
[attach-var-names] #8358 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8359 or #5184 #8356
[inst-discovered] theory-solving 0x0 basic# ; #8357
[mk-app] #8360 = #8357 #8359
[instance] 0x0 #8360
[attach-enode] #8360 0
[end-of-instance]
[mk-quant] #8360 internal_vstd!seq_lib.impl&__0.reverse.?_pre_post_definition 3 #8348 #8359
[attach-var-names] #8360 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8361 fuel_bool #869
[mk-app] #8362 and #5769 #8279
[mk-app] #8363 %B #7972
[mk-app] #8364 and #8362 #8363
[mk-app] #8365 vstd!std_specs.iter.rev_post.? #64 #65 #33 #8209
[mk-app] #8366 and #8364 #8365
[mk-app] #8367 vstd!std_specs.iter.IteratorSpec.remaining.? #120 #8211 #8209
[mk-app] #8368 vstd!seq_lib.impl&%0.reverse.? #2268 #2269 #7994
[mk-app] #8369 = #8367 #8368
[mk-app] #8370 vstd!std_specs.iter.IteratorSpec.will_return_none.? #120 #8211 #8209
[mk-app] #8371 = #8370 #7979
[mk-app] #8372 and #8369 #8371
[mk-app] #8373 vstd!std_specs.iter.IteratorSpec.decrease.? #120 #8211 #8209
[mk-app] #8374 %Poly%core!option.Option. #8373
[mk-app] #8375 is-core!option.Option./Some #8374
[mk-app] #8376 %Poly%core!option.Option. #7986
[mk-app] #8377 is-core!option.Option./Some #8376
[mk-app] #8378 = #8375 #8377
[mk-app] #8379 and #8372 #8378
[mk-app] #8380 => #8366 #8379
[mk-app] #8381 => #68 #8380
[mk-quant] #8382 user_vstd__std_specs__iter__rev_postcondition_0 3 #8226 #8381
[attach-var-names] #8382 (|i!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8383 => #8361 #8382
[mk-app] #8384 and #5769 #8279 #8363 #8365
[mk-app] #8385 is #8374
[inst-discovered] theory-solving 0x0 datatype# ; #8375
[mk-app] #8386 = #8375 #8385
[instance] 0x0 #8386
[attach-enode] #8386 0
[end-of-instance]
[mk-app] #8386 is #8376
[inst-discovered] theory-solving 0x0 datatype# ; #8377
[mk-app] #8387 = #8377 #8386
[instance] 0x0 #8387
[attach-enode] #8387 0
[end-of-instance]
[mk-app] #8387 = #8385 #8386
[mk-app] #8388 and #8369 #8371 #8387
[mk-app] #8389 not #8384
[mk-app] #8390 or #8389 #8388
[mk-app] #8391 => #8384 #8388
[inst-discovered] theory-solving 0x0 basic# ; #8391
[mk-app] #8392 = #8391 #8390
[instance] 0x0 #8392
[attach-enode] #8392 0
[end-of-instance]
[mk-app] #8391 or #2139 #8389 #8388
[mk-app] #8392 => #68 #8390
[inst-discovered] theory-solving 0x0 basic# ; #8392
[mk-app] #8393 = #8392 #8391
[instance] 0x0 #8393
[attach-enode] #8393 0
[end-of-instance]
[mk-quant] #8390 user_vstd__std_specs__iter__rev_postcondition_0 3 #8226 #8391
[attach-var-names] #8390 (|i!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #8392 not #8361
[mk-app] #8393 or #8392 #8390
[mk-app] #8394 => #8361 #8390
[inst-discovered] theory-solving 0x0 basic# ; #8394
[mk-app] #8395 = #8394 #8393
[instance] 0x0 #8395
[attach-enode] #8395 0
[end-of-instance]
[mk-app] #8394 TYPE%alloc!vec.Vec. #1560 #1561 #64 #65
[mk-app] #8395 has_type #33 #8394
[mk-app] #8396 vstd!std_specs.vec.spec_vec_len.? #1560 #1561 #64 #65 #33
[mk-app] #8397 uInv #269 #8396
[mk-app] #8398 => #8395 #8397
[mk-app] #8399 pattern #8396
[mk-quant] #8400 internal_vstd!std_specs.vec.spec_vec_len.?_pre_post_definition 5 #8399 #8398
[attach-var-names] #8400 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8401 not #8395
[mk-app] #8402 or #8401 #8397
[inst-discovered] theory-solving 0x0 basic# ; #8398
[mk-app] #8403 = #8398 #8402
[instance] 0x0 #8403
[attach-enode] #8403 0
[end-of-instance]
[mk-quant] #8403 internal_vstd!std_specs.vec.spec_vec_len.?_pre_post_definition 5 #8399 #8402
[attach-var-names] #8403 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8404 tr_bound%vstd!view.View. #120 #3503
[mk-app] #8405 => #3502 #8404
[mk-app] #8406 pattern #8404
[mk-quant] #8407 internal_vstd__view__impl&__8_trait_impl_definition 4 #8406 #8405
[attach-var-names] #8407 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8408 or #3509 #8404
[inst-discovered] theory-solving 0x0 basic# ; #8405
[mk-app] #8409 = #8405 #8408
[instance] 0x0 #8409
[attach-enode] #8409 0
[end-of-instance]
[mk-quant] #8409 internal_vstd__view__impl&__8_trait_impl_definition 4 #8406 #8408
[attach-var-names] #8409 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8410 fuel_bool #1199
[mk-app] #8411 and #5290 #5769
[mk-app] #8412 tr_bound%core!alloc.Allocator. #64 #65
[mk-app] #8413 and #8411 #8412
[mk-app] #8414 vstd!view.View.view.? #120 #8394 #33
[mk-app] #8415 vstd!seq.Seq.len.? #1560 #1561 #8414
[mk-app] #8416 = #8396 #8415
[mk-app] #8417 => #8413 #8416
[mk-app] #8418 => #8395 #8417
[mk-quant] #8419 user_vstd__std_specs__vec__axiom_spec_len_0 5 #8399 #8418
[attach-var-names] #8419 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8420 => #8410 #8419
[mk-app] #8421 and #5290 #5769 #8412
[mk-app] #8422 not #8421
[mk-app] #8423 or #8422 #8416
[mk-app] #8424 => #8421 #8416
[inst-discovered] theory-solving 0x0 basic# ; #8424
[mk-app] #8425 = #8424 #8423
[instance] 0x0 #8425
[attach-enode] #8425 0
[end-of-instance]
[mk-app] #8424 or #8401 #8422 #8416
[mk-app] #8425 => #8395 #8423
[inst-discovered] theory-solving 0x0 basic# ; #8425
[mk-app] #8426 = #8425 #8424
[instance] 0x0 #8426
[attach-enode] #8426 0
[end-of-instance]
[mk-quant] #8423 user_vstd__std_specs__vec__axiom_spec_len_0 5 #8399 #8424
[attach-var-names] #8423 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8425 not #8410
[mk-app] #8426 or #8425 #8423
[mk-app] #8427 => #8410 #8423
[inst-discovered] theory-solving 0x0 basic# ; #8427
[mk-app] #8428 = #8427 #8426
[instance] 0x0 #8428
[attach-enode] #8428 0
[end-of-instance]
[mk-app] #8427 tr_bound%core!alloc.Allocator. #120 #1996
[mk-app] #8428 req%vstd!std_specs.vec.VecAdditionalSpecFns.spec_index. #1592 #1573 #1593 #263 #32 #33
[mk-app] #8429 %%global_location_label%%7
[mk-app] #8430 => #8429 #5801
[mk-app] #8431 = #8428 #8430
[mk-app] #8432 pattern #8428
[mk-quant] #8433 internal_req__vstd!std_specs.vec.VecAdditionalSpecFns.spec_index._definition 6 #8432 #8431
[attach-var-names] #8433 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #8434 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #8434 = #512 #516
[instance] 0x0 #8434
[attach-enode] #8434 0
[end-of-instance]
[mk-app] #8434 <= #5799 #186
[mk-app] #8435 not #8434
[inst-discovered] theory-solving 0x0 arith# ; #5800
[mk-app] #8436 = #5800 #8435
[instance] 0x0 #8436
[attach-enode] #8436 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #8436 * #365 #186
[mk-app] #8437 + #8436 #5799
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #8434
[mk-app] #8436 = #8434 #5808
[instance] 0x0 #8436
[attach-enode] #8436 0
[end-of-instance]
[mk-app] #8436 not #8429
[mk-app] #8437 or #8436 #5812
[mk-app] #8438 => #8429 #5812
[inst-discovered] theory-solving 0x0 basic# ; #8438
[mk-app] #8439 = #8438 #8437
[instance] 0x0 #8439
[attach-enode] #8439 0
[end-of-instance]
[mk-app] #8438 = #8428 #8437
[mk-quant] #8439 internal_req__vstd!std_specs.vec.VecAdditionalSpecFns.spec_index._definition 6 #8432 #8438
[attach-var-names] #8439 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8434 vstd!std_specs.vec.VecAdditionalSpecFns.spec_index.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8435 has_type #8434 #263
[mk-app] #8440 => #5806 #8435
[mk-app] #8441 pattern #8434
[mk-quant] #8442 internal_vstd!std_specs.vec.VecAdditionalSpecFns.spec_index.?_pre_post_definition 6 #8441 #8440
[attach-var-names] #8442 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8443 or #5821 #8435
[inst-discovered] theory-solving 0x0 basic# ; #8440
[mk-app] #8444 = #8440 #8443
[instance] 0x0 #8444
[attach-enode] #8444 0
[end-of-instance]
[mk-quant] #8444 internal_vstd!std_specs.vec.VecAdditionalSpecFns.spec_index.?_pre_post_definition 6 #8441 #8443
[attach-var-names] #8444 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8445 fuel_bool_default #1198
[mk-app] #8446 fuel_bool #1198
[mk-app] #8447 tr_bound%core!alloc.Allocator. #1593 #263
[mk-app] #8448 and #2798 #2799 #8447
[mk-app] #8449 TYPE%alloc!vec.Vec. #1592 #1573 #1593 #263
[mk-app] #8450 vstd!std_specs.vec.VecAdditionalSpecFns.spec_index.? #120 #8449 #1592 #1573 #32 #33
[mk-app] #8451 vstd!view.View.view.? #120 #8449 #32
[mk-app] #8452 vstd!seq.Seq.index.? #1592 #1573 #8451 #33
[mk-app] #8453 = #8450 #8452
[mk-app] #8454 => #8448 #8453
[mk-app] #8455 pattern #8450
[mk-quant] #8456 internal_vstd!std_specs.vec.impl&__0.spec_index.?_definition 6 #8455 #8454
[attach-var-names] #8456 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8457 => #8446 #8456
[mk-app] #8458 not #8448
[mk-app] #8459 or #8458 #8453
[inst-discovered] theory-solving 0x0 basic# ; #8454
[mk-app] #8460 = #8454 #8459
[instance] 0x0 #8460
[attach-enode] #8460 0
[end-of-instance]
[mk-quant] #8460 internal_vstd!std_specs.vec.impl&__0.spec_index.?_definition 6 #8455 #8459
[attach-var-names] #8460 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8461 not #8446
[mk-app] #8462 or #8461 #8460
[mk-app] #8463 => #8446 #8460
[inst-discovered] theory-solving 0x0 basic# ; #8463
[mk-app] #8464 = #8463 #8462
[instance] 0x0 #8464
[attach-enode] #8464 0
[end-of-instance]
[mk-app] #8463 tr_bound%vstd!std_specs.vec.VecAdditionalSpecFns. #120 #3503 #1593 #263
[mk-app] #8464 => #3502 #8463
[mk-app] #8465 pattern #8463
[mk-quant] #8466 internal_vstd__std_specs__vec__impl&__0_trait_impl_definition 4 #8465 #8464
[attach-var-names] #8466 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8467 or #3509 #8463
[inst-discovered] theory-solving 0x0 basic# ; #8464
[mk-app] #8468 = #8464 #8467
[instance] 0x0 #8468
[attach-enode] #8468 0
[end-of-instance]
[mk-quant] #8468 internal_vstd__std_specs__vec__impl&__0_trait_impl_definition 4 #8465 #8467
[attach-var-names] #8468 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8469 fuel_bool #1200
[mk-app] #8470 TYPE%alloc!vec.Vec. #1593 #263 #120 #1996
[mk-app] #8471 has_type #32 #8470
[mk-app] #8472 and #8471 #185
[mk-app] #8473 vstd!std_specs.vec.spec_vec_len.? #1593 #263 #120 #1996 #32
[mk-app] #8474 < #186 #8473
[mk-app] #8475 and #512 #8474
[mk-app] #8476 and #2799 #8475
[mk-app] #8477 vstd!view.View.view.? #120 #8470 #32
[mk-app] #8478 vstd!seq.Seq.index.? #1593 #263 #8477 #33
[mk-app] #8479 height #8478
[mk-app] #8480 height_lt #8479 #763
[mk-app] #8481 => #8476 #8480
[mk-app] #8482 => #8472 #8481
[mk-app] #8483 pattern #8479
[mk-quant] #8484 user_vstd__std_specs__vec__axiom_vec_index_decreases_0 4 #8483 #8482
[attach-var-names] #8484 (|i!| ; |Poly|) (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8485 => #8469 #8484
[attach-meaning] #365 arith (- 1)
[mk-app] #8486 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #8486 = #512 #516
[instance] 0x0 #8486
[attach-enode] #8486 0
[end-of-instance]
[mk-app] #8486 <= #8473 #186
[mk-app] #8487 not #8486
[inst-discovered] theory-solving 0x0 arith# ; #8474
[mk-app] #8488 = #8474 #8487
[instance] 0x0 #8488
[attach-enode] #8488 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #8488 * #365 #186
[mk-app] #8489 + #8488 #8473
[attach-meaning] #365 arith (- 1)
[mk-app] #8490 * #365 #8473
[mk-app] #8491 + #186 #8490
[mk-app] #8488 >= #8491 #336
[inst-discovered] theory-solving 0x0 arith# ; #8486
[mk-app] #8489 = #8486 #8488
[instance] 0x0 #8489
[attach-enode] #8489 0
[end-of-instance]
[mk-app] #8489 not #8488
[mk-app] #8492 and #2799 #516 #8489
[mk-app] #8493 not #8492
[mk-app] #8494 or #8493 #8480
[mk-app] #8495 => #8492 #8480
[inst-discovered] theory-solving 0x0 basic# ; #8495
[mk-app] #8496 = #8495 #8494
[instance] 0x0 #8496
[attach-enode] #8496 0
[end-of-instance]
[mk-app] #8495 not #8472
[mk-app] #8496 or #8495 #8493 #8480
[mk-app] #8497 => #8472 #8494
[inst-discovered] theory-solving 0x0 basic# ; #8497
[mk-app] #8498 = #8497 #8496
[instance] 0x0 #8498
[attach-enode] #8498 0
[end-of-instance]
[mk-quant] #8494 user_vstd__std_specs__vec__axiom_vec_index_decreases_0 4 #8483 #8496
[attach-var-names] #8494 (|i!| ; |Poly|) (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8486 not #8469
[mk-app] #8487 or #8486 #8494
[mk-app] #8497 => #8469 #8494
[inst-discovered] theory-solving 0x0 basic# ; #8497
[mk-app] #8498 = #8497 #8487
[instance] 0x0 #8498
[attach-enode] #8498 0
[end-of-instance]
[mk-app] #8497 fuel_bool #1206
[mk-app] #8498 has_resolved #120 #8470 #32
[mk-app] #8499 has_resolved #1593 #263 #8478
[mk-app] #8500 => #8498 #8499
[mk-app] #8501 => #8475 #8500
[mk-app] #8502 => #2799 #8501
[mk-app] #8503 => #8472 #8502
[mk-app] #8504 pattern #8498 #8478
[mk-quant] #8505 user_vstd__std_specs__vec__axiom_vec_has_resolved_0 4 #8504 #8503
[attach-var-names] #8505 (|i!| ; |Poly|) (|vec!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8506 => #8497 #8505
[attach-meaning] #365 arith (- 1)
[mk-app] #8507 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #8507 = #512 #516
[instance] 0x0 #8507
[attach-enode] #8507 0
[end-of-instance]
[mk-app] #8507 <= #8473 #186
[mk-app] #8508 not #8507
[inst-discovered] theory-solving 0x0 arith# ; #8474
[mk-app] #8509 = #8474 #8508
[instance] 0x0 #8509
[attach-enode] #8509 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #8509 * #365 #186
[mk-app] #8510 + #8509 #8473
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #8507
[mk-app] #8509 = #8507 #8488
[instance] 0x0 #8509
[attach-enode] #8509 0
[end-of-instance]
[mk-app] #8509 and #516 #8489
[mk-app] #8510 not #8498
[mk-app] #8511 or #8510 #8499
[inst-discovered] theory-solving 0x0 basic# ; #8500
[mk-app] #8512 = #8500 #8511
[instance] 0x0 #8512
[attach-enode] #8512 0
[end-of-instance]
[mk-app] #8512 not #8509
[mk-app] #8513 or #8512 #8510 #8499
[mk-app] #8514 => #8509 #8511
[inst-discovered] theory-solving 0x0 basic# ; #8514
[mk-app] #8515 = #8514 #8513
[instance] 0x0 #8515
[attach-enode] #8515 0
[end-of-instance]
[mk-app] #8511 or #5347 #8512 #8510 #8499
[mk-app] #8514 => #2799 #8513
[inst-discovered] theory-solving 0x0 basic# ; #8514
[mk-app] #8515 = #8514 #8511
[instance] 0x0 #8515
[attach-enode] #8515 0
[end-of-instance]
[mk-app] #8513 or #8495 #5347 #8512 #8510 #8499
[mk-app] #8514 => #8472 #8511
[inst-discovered] theory-solving 0x0 basic# ; #8514
[mk-app] #8515 = #8514 #8513
[instance] 0x0 #8515
[attach-enode] #8515 0
[end-of-instance]
[mk-quant] #8511 user_vstd__std_specs__vec__axiom_vec_has_resolved_0 4 #8504 #8513
[attach-var-names] #8511 (|i!| ; |Poly|) (|vec!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8507 not #8497
[mk-app] #8508 or #8507 #8511
[mk-app] #8514 => #8497 #8511
[inst-discovered] theory-solving 0x0 basic# ; #8514
[mk-app] #8515 = #8514 #8508
[instance] 0x0 #8515
[attach-enode] #8515 0
[end-of-instance]
[mk-app] #8514 fuel_bool #1207
[mk-app] #8515 TYPE%alloc!vec.Vec. #64 #65 #120 #1996
[mk-app] #8516 has_type #33 #8515
[mk-app] #8517 vstd!view.View.view.? #120 #8515 #33
[mk-app] #8518 height #8517
[mk-app] #8519 height_lt #8518 #5967
[mk-app] #8520 => #5769 #8519
[mk-app] #8521 => #8516 #8520
[mk-app] #8522 pattern #8518
[mk-quant] #8523 user_vstd__std_specs__vec__axiom_vec_decreases_to_view_0 3 #8522 #8521
[attach-var-names] #8523 (|v!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8524 => #8514 #8523
[mk-app] #8525 or #5777 #8519
[inst-discovered] theory-solving 0x0 basic# ; #8520
[mk-app] #8526 = #8520 #8525
[instance] 0x0 #8526
[attach-enode] #8526 0
[end-of-instance]
[mk-app] #8526 not #8516
[mk-app] #8527 or #8526 #5777 #8519
[mk-app] #8528 => #8516 #8525
[inst-discovered] theory-solving 0x0 basic# ; #8528
[mk-app] #8529 = #8528 #8527
[instance] 0x0 #8529
[attach-enode] #8529 0
[end-of-instance]
[mk-quant] #8525 user_vstd__std_specs__vec__axiom_vec_decreases_to_view_0 3 #8522 #8527
[attach-var-names] #8525 (|v!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8528 not #8514
[mk-app] #8529 or #8528 #8525
[mk-app] #8530 => #8514 #8525
[inst-discovered] theory-solving 0x0 basic# ; #8530
[mk-app] #8531 = #8530 #8529
[instance] 0x0 #8531
[attach-enode] #8531 0
[end-of-instance]
[mk-app] #8530 vstd!std_specs.nonzero.ZeroablePrimitiveSpec.is_zero.? #64 #65 #33
[mk-app] #8531 has_type #8530 #135
[mk-app] #8532 => #68 #8531
[mk-app] #8533 pattern #8530
[mk-quant] #8534 internal_vstd!std_specs.nonzero.ZeroablePrimitiveSpec.is_zero.?_pre_post_definition 3 #8533 #8532
[attach-var-names] #8534 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8535 or #2139 #8531
[inst-discovered] theory-solving 0x0 basic# ; #8532
[mk-app] #8536 = #8532 #8535
[instance] 0x0 #8536
[attach-enode] #8536 0
[end-of-instance]
[mk-quant] #8536 internal_vstd!std_specs.nonzero.ZeroablePrimitiveSpec.is_zero.?_pre_post_definition 3 #8533 #8535
[attach-var-names] #8536 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8537 => #3641 #3104
[mk-quant] #8538 internal_vstd__std_specs__nonzero__impl&__17_trait_impl_definition 2 #3107 #8537
[attach-var-names] #8538 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #8539 or #3648 #3104
[inst-discovered] theory-solving 0x0 basic# ; #8537
[mk-app] #8540 = #8537 #8539
[instance] 0x0 #8540
[attach-enode] #8540 0
[end-of-instance]
[mk-quant] #8540 internal_vstd__std_specs__nonzero__impl&__17_trait_impl_definition 2 #3107 #8539
[attach-var-names] #8540 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #8541 tr_bound%vstd!view.View. #120 #3642
[mk-app] #8542 => #3641 #8541
[mk-app] #8543 pattern #8541
[mk-quant] #8544 internal_vstd__std_specs__nonzero__impl&__11_trait_impl_definition 2 #8543 #8542
[attach-var-names] #8544 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8545 or #3648 #8541
[inst-discovered] theory-solving 0x0 basic# ; #8542
[mk-app] #8546 = #8542 #8545
[instance] 0x0 #8546
[attach-enode] #8546 0
[end-of-instance]
[mk-quant] #8546 internal_vstd__std_specs__nonzero__impl&__11_trait_impl_definition 2 #8543 #8545
[attach-var-names] #8546 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8547 fuel_bool #1218
[mk-app] #8548 TYPE%core!num.nonzero.NonZero. #64 #65
[mk-app] #8549 has_type #33 #8548
[mk-app] #8550 tr_bound%core!num.nonzero.ZeroablePrimitive. #64 #65
[mk-app] #8551 and #5769 #8550
[mk-app] #8552 vstd!view.View.view.? #120 #8548 #33
[mk-app] #8553 vstd!std_specs.nonzero.ZeroablePrimitiveSpec.is_zero.? #64 #65 #8552
[mk-app] #8554 %B #8553
[mk-app] #8555 not #8554
[mk-app] #8556 => #8551 #8555
[mk-app] #8557 => #8549 #8556
[mk-app] #8558 pattern #8552
[mk-quant] #8559 user_vstd__std_specs__nonzero__axiom_nonzero_is_not_zero_0 3 #8558 #8557
[attach-var-names] #8559 (|n!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8560 => #8547 #8559
[mk-app] #8561 not #8551
[mk-app] #8562 or #8561 #8555
[inst-discovered] theory-solving 0x0 basic# ; #8556
[mk-app] #8563 = #8556 #8562
[instance] 0x0 #8563
[attach-enode] #8563 0
[end-of-instance]
[mk-app] #8563 not #8549
[mk-app] #8564 or #8563 #8561 #8555
[mk-app] #8565 => #8549 #8562
[inst-discovered] theory-solving 0x0 basic# ; #8565
[mk-app] #8566 = #8565 #8564
[instance] 0x0 #8566
[attach-enode] #8566 0
[end-of-instance]
[mk-quant] #8562 user_vstd__std_specs__nonzero__axiom_nonzero_is_not_zero_0 3 #8558 #8564
[attach-var-names] #8562 (|n!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8565 not #8547
[mk-app] #8566 or #8565 #8562
[mk-app] #8567 => #8547 #8562
[inst-discovered] theory-solving 0x0 basic# ; #8567
[mk-app] #8568 = #8567 #8566
[instance] 0x0 #8568
[attach-enode] #8568 0
[end-of-instance]
[mk-app] #8567 tr_bound%core!marker.Tuple. #120 #1528
[mk-app] #8568 tr_bound%core!clone.Clone. #120 #1528
[mk-app] #8569 tr_bound%core!marker.Copy. #120 #1528
[mk-app] #8570 tr_bound%core!marker.Tuple. #3589 #3590
[mk-app] #8571 pattern #8570
[mk-quant] #8572 internal_crate__impl_tuple&__Tuple1_trait_impl_definition 2 #8571 #8570
[attach-var-names] #8572 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8573 tr_bound%core!clone.Clone. #3589 #3590
[mk-app] #8574 => #2823 #8573
[mk-app] #8575 pattern #8573
[mk-quant] #8576 internal_crate__impl_tuple&__Clone1_trait_impl_definition 2 #8575 #8574
[attach-var-names] #8576 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8577 or #2827 #8573
[inst-discovered] theory-solving 0x0 basic# ; #8574
[mk-app] #8578 = #8574 #8577
[instance] 0x0 #8578
[attach-enode] #8578 0
[end-of-instance]
[mk-quant] #8578 internal_crate__impl_tuple&__Clone1_trait_impl_definition 2 #8575 #8577
[attach-var-names] #8578 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8579 tr_bound%core!marker.Copy. #3589 #3590
[mk-app] #8580 => #2830 #8579
[mk-app] #8581 pattern #8579
[mk-quant] #8582 internal_crate__impl_tuple&__Copy1_trait_impl_definition 2 #8581 #8580
[attach-var-names] #8582 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8583 or #2834 #8579
[inst-discovered] theory-solving 0x0 basic# ; #8580
[mk-app] #8584 = #8580 #8583
[instance] 0x0 #8584
[attach-enode] #8584 0
[end-of-instance]
[mk-quant] #8584 internal_crate__impl_tuple&__Copy1_trait_impl_definition 2 #8581 #8583
[attach-var-names] #8584 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8585 tr_bound%core!marker.Tuple. #3589 #3608
[mk-app] #8586 pattern #8585
[mk-quant] #8587 internal_crate__impl_tuple&__Tuple2_trait_impl_definition 4 #8586 #8585
[attach-var-names] #8587 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8588 tr_bound%core!clone.Clone. #1593 #263
[mk-app] #8589 and #8588 #2823
[mk-app] #8590 tr_bound%core!clone.Clone. #3589 #3608
[mk-app] #8591 => #8589 #8590
[mk-app] #8592 pattern #8590
[mk-quant] #8593 internal_crate__impl_tuple&__Clone2_trait_impl_definition 4 #8592 #8591
[attach-var-names] #8593 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8594 not #8589
[mk-app] #8595 or #8594 #8590
[inst-discovered] theory-solving 0x0 basic# ; #8591
[mk-app] #8596 = #8591 #8595
[instance] 0x0 #8596
[attach-enode] #8596 0
[end-of-instance]
[mk-quant] #8596 internal_crate__impl_tuple&__Clone2_trait_impl_definition 4 #8592 #8595
[attach-var-names] #8596 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8597 tr_bound%core!marker.Copy. #1593 #263
[mk-app] #8598 and #8597 #2830
[mk-app] #8599 tr_bound%core!marker.Copy. #3589 #3608
[mk-app] #8600 => #8598 #8599
[mk-app] #8601 pattern #8599
[mk-quant] #8602 internal_crate__impl_tuple&__Copy2_trait_impl_definition 4 #8601 #8600
[attach-var-names] #8602 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8603 not #8598
[mk-app] #8604 or #8603 #8599
[inst-discovered] theory-solving 0x0 basic# ; #8600
[mk-app] #8605 = #8600 #8604
[instance] 0x0 #8605
[attach-enode] #8605 0
[end-of-instance]
[mk-quant] #8605 internal_crate__impl_tuple&__Copy2_trait_impl_definition 4 #8601 #8604
[attach-var-names] #8605 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #8606 ens%core!iter.traits.collect.IntoIterator.into_iter. #1593 #263 #32 #33
[mk-app] #8607 proj%core!iter.traits.collect.IntoIterator./IntoIter #1593 #263
[mk-app] #8608 has_type #33 #8607
[mk-app] #8609 = #8606 #8608
[mk-app] #8610 pattern #8606
[mk-quant] #8611 internal_ens__core!iter.traits.collect.IntoIterator.into_iter._definition 4 #8610 #8609
[attach-var-names] #8611 (|%return!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8612 g1!g.Index.index_req.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8613 has_type #8612 #135
[mk-app] #8614 => #2596 #8613
[mk-app] #8615 pattern #8612
[mk-quant] #8616 internal_g1!g.Index.index_req.?_pre_post_definition 6 #8615 #8614
[attach-var-names] #8616 (|i!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8617 or #2604 #8613
[inst-discovered] theory-solving 0x0 basic# ; #8614
[mk-app] #8618 = #8614 #8617
[instance] 0x0 #8618
[attach-enode] #8618 0
[end-of-instance]
[mk-quant] #8618 internal_g1!g.Index.index_req.?_pre_post_definition 6 #8615 #8617
[attach-var-names] #8618 (|i!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8619 g1!g.Index.index_val.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8620 proj%g1!g.Index./Output #1592 #1573 #1593 #263
[mk-app] #8621 has_type #8619 #8620
[mk-app] #8622 => #2596 #8621
[mk-app] #8623 pattern #8619
[mk-quant] #8624 internal_g1!g.Index.index_val.?_pre_post_definition 6 #8623 #8622
[attach-var-names] #8624 (|i!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8625 or #2604 #8621
[inst-discovered] theory-solving 0x0 basic# ; #8622
[mk-app] #8626 = #8622 #8625
[instance] 0x0 #8626
[attach-enode] #8626 0
[end-of-instance]
[mk-quant] #8626 internal_g1!g.Index.index_val.?_pre_post_definition 6 #8623 #8625
[attach-var-names] #8626 (|i!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8627 has_type #63 #1621
[mk-app] #8628 proj%g1!g.Index./Output #3199 #1621 #1592 #1573
[mk-app] #8629 has_type #32 #8628
[mk-app] #8630 and #8627 #2217 #8629 #1622
[mk-app] #8631 g1!g.IndexMut.index_post.? #3199 #1621 #1592 #1573 #63 #43 #32 #33
[mk-app] #8632 has_type #8631 #135
[mk-app] #8633 => #8630 #8632
[mk-app] #8634 pattern #8631
[mk-quant] #8635 internal_g1!g.IndexMut.index_post.?_pre_post_definition 8 #8634 #8633
[attach-var-names] #8635 (|post!| ; |Poly|) (|v!| ; |Poly|) (|i!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8636 not #8630
[mk-app] #8637 or #8636 #8632
[inst-discovered] theory-solving 0x0 basic# ; #8633
[mk-app] #8638 = #8633 #8637
[instance] 0x0 #8638
[attach-enode] #8638 0
[end-of-instance]
[mk-quant] #8638 internal_g1!g.IndexMut.index_post.?_pre_post_definition 8 #8634 #8637
[attach-var-names] #8638 (|post!| ; |Poly|) (|v!| ; |Poly|) (|i!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8639 g1!g.Zero.zero_spec.? #44 #45
[mk-app] #8640 has_type #8639 #45
[mk-app] #8641 pattern #8639
[mk-quant] #8642 internal_g1!g.Zero.zero_spec.?_pre_post_definition 2 #8641 #8640
[attach-var-names] #8642 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8643 ens%g1!g.Zero.zero. #64 #65 #33
[mk-app] #8644 g1!g.Zero.zero_spec.? #64 #65
[mk-app] #8645 = #33 #8644
[mk-app] #8646 and #68 #8645
[mk-app] #8647 = #8643 #8646
[mk-app] #8648 pattern #8643
[mk-quant] #8649 internal_ens__g1!g.Zero.zero._definition 3 #8648 #8647
[attach-var-names] #8649 (|r!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8650 g1!g.One.one_spec.? #44 #45
[mk-app] #8651 has_type #8650 #45
[mk-app] #8652 pattern #8650
[mk-quant] #8653 internal_g1!g.One.one_spec.?_pre_post_definition 2 #8652 #8651
[attach-var-names] #8653 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8654 ens%g1!g.One.one. #64 #65 #33
[mk-app] #8655 g1!g.One.one_spec.? #64 #65
[mk-app] #8656 = #33 #8655
[mk-app] #8657 and #68 #8656
[mk-app] #8658 = #8654 #8657
[mk-app] #8659 pattern #8654
[mk-quant] #8660 internal_ens__g1!g.One.one._definition 3 #8659 #8658
[attach-var-names] #8660 (|r!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8661 vstd!std_specs.ops.AddSpec.add_req.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8662 has_type #8661 #135
[mk-app] #8663 => #2596 #8662
[mk-app] #8664 pattern #8661
[mk-quant] #8665 internal_vstd!std_specs.ops.AddSpec.add_req.?_pre_post_definition 6 #8664 #8663
[attach-var-names] #8665 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8666 or #2604 #8662
[inst-discovered] theory-solving 0x0 basic# ; #8663
[mk-app] #8667 = #8663 #8666
[instance] 0x0 #8667
[attach-enode] #8667 0
[end-of-instance]
[mk-quant] #8667 internal_vstd!std_specs.ops.AddSpec.add_req.?_pre_post_definition 6 #8664 #8666
[attach-var-names] #8667 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8668 vstd!std_specs.ops.AddSpec.obeys_add_spec.? #1593 #263 #44 #45
[mk-app] #8669 has_type #8668 #135
[mk-app] #8670 pattern #8668
[mk-quant] #8671 internal_vstd!std_specs.ops.AddSpec.obeys_add_spec.?_pre_post_definition 4 #8670 #8669
[attach-var-names] #8671 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8672 vstd!std_specs.ops.AddSpec.add_spec.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8673 proj%core!ops.arith.Add./Output #1592 #1573 #1593 #263
[mk-app] #8674 has_type #8672 #8673
[mk-app] #8675 => #2596 #8674
[mk-app] #8676 pattern #8672
[mk-quant] #8677 internal_vstd!std_specs.ops.AddSpec.add_spec.?_pre_post_definition 6 #8676 #8675
[attach-var-names] #8677 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8678 or #2604 #8674
[inst-discovered] theory-solving 0x0 basic# ; #8675
[mk-app] #8679 = #8675 #8678
[instance] 0x0 #8679
[attach-enode] #8679 0
[end-of-instance]
[mk-quant] #8679 internal_vstd!std_specs.ops.AddSpec.add_spec.?_pre_post_definition 6 #8676 #8678
[attach-var-names] #8679 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8680 req%core!ops.arith.Add.add. #1592 #1573 #1593 #263 #32 #33
[mk-app] #8681 %%global_location_label%%8
[mk-app] #8682 %B #8661
[mk-app] #8683 => #8681 #8682
[mk-app] #8684 = #8680 #8683
[mk-app] #8685 pattern #8680
[mk-quant] #8686 internal_req__core!ops.arith.Add.add._definition 6 #8685 #8684
[attach-var-names] #8686 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8687 not #8681
[mk-app] #8688 or #8687 #8682
[inst-discovered] theory-solving 0x0 basic# ; #8683
[mk-app] #8689 = #8683 #8688
[instance] 0x0 #8689
[attach-enode] #8689 0
[end-of-instance]
[mk-app] #8689 = #8680 #8688
[mk-quant] #8690 internal_req__core!ops.arith.Add.add._definition 6 #8685 #8689
[attach-var-names] #8690 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8691 ens%core!ops.arith.Add.add. #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #8692 proj%core!ops.arith.Add./Output #1615 #1616 #1560 #1561
[mk-app] #8693 has_type #33 #8692
[mk-app] #8694 vstd!std_specs.ops.AddSpec.obeys_add_spec.? #1615 #1616 #1560 #1561
[mk-app] #8695 %B #8694
[mk-app] #8696 vstd!std_specs.ops.AddSpec.add_spec.? #1615 #1616 #1560 #1561 #43 #32
[mk-app] #8697 = #33 #8696
[mk-app] #8698 => #8695 #8697
[mk-app] #8699 and #8693 #8698
[mk-app] #8700 = #8691 #8699
[mk-app] #8701 pattern #8691
[mk-quant] #8702 internal_ens__core!ops.arith.Add.add._definition 7 #8701 #8700
[attach-var-names] #8702 (|ret!| ; |Poly|) (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8703 not #8695
[mk-app] #8704 or #8703 #8697
[inst-discovered] theory-solving 0x0 basic# ; #8698
[mk-app] #8705 = #8698 #8704
[instance] 0x0 #8705
[attach-enode] #8705 0
[end-of-instance]
[mk-app] #8705 and #8693 #8704
[mk-app] #8706 = #8691 #8705
[mk-quant] #8707 internal_ens__core!ops.arith.Add.add._definition 7 #8701 #8706
[attach-var-names] #8707 (|ret!| ; |Poly|) (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8708 vstd!std_specs.ops.SubSpec.sub_req.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8709 has_type #8708 #135
[mk-app] #8710 => #2596 #8709
[mk-app] #8711 pattern #8708
[mk-quant] #8712 internal_vstd!std_specs.ops.SubSpec.sub_req.?_pre_post_definition 6 #8711 #8710
[attach-var-names] #8712 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8713 or #2604 #8709
[inst-discovered] theory-solving 0x0 basic# ; #8710
[mk-app] #8714 = #8710 #8713
[instance] 0x0 #8714
[attach-enode] #8714 0
[end-of-instance]
[mk-quant] #8714 internal_vstd!std_specs.ops.SubSpec.sub_req.?_pre_post_definition 6 #8711 #8713
[attach-var-names] #8714 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8715 vstd!std_specs.ops.SubSpec.obeys_sub_spec.? #1593 #263 #44 #45
[mk-app] #8716 has_type #8715 #135
[mk-app] #8717 pattern #8715
[mk-quant] #8718 internal_vstd!std_specs.ops.SubSpec.obeys_sub_spec.?_pre_post_definition 4 #8717 #8716
[attach-var-names] #8718 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8719 vstd!std_specs.ops.SubSpec.sub_spec.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8720 proj%core!ops.arith.Sub./Output #1592 #1573 #1593 #263
[mk-app] #8721 has_type #8719 #8720
[mk-app] #8722 => #2596 #8721
[mk-app] #8723 pattern #8719
[mk-quant] #8724 internal_vstd!std_specs.ops.SubSpec.sub_spec.?_pre_post_definition 6 #8723 #8722
[attach-var-names] #8724 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8725 or #2604 #8721
[inst-discovered] theory-solving 0x0 basic# ; #8722
[mk-app] #8726 = #8722 #8725
[instance] 0x0 #8726
[attach-enode] #8726 0
[end-of-instance]
[mk-quant] #8726 internal_vstd!std_specs.ops.SubSpec.sub_spec.?_pre_post_definition 6 #8723 #8725
[attach-var-names] #8726 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8727 req%core!ops.arith.Sub.sub. #1592 #1573 #1593 #263 #32 #33
[mk-app] #8728 %%global_location_label%%9
[mk-app] #8729 %B #8708
[mk-app] #8730 => #8728 #8729
[mk-app] #8731 = #8727 #8730
[mk-app] #8732 pattern #8727
[mk-quant] #8733 internal_req__core!ops.arith.Sub.sub._definition 6 #8732 #8731
[attach-var-names] #8733 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8734 not #8728
[mk-app] #8735 or #8734 #8729
[inst-discovered] theory-solving 0x0 basic# ; #8730
[mk-app] #8736 = #8730 #8735
[instance] 0x0 #8736
[attach-enode] #8736 0
[end-of-instance]
[mk-app] #8736 = #8727 #8735
[mk-quant] #8737 internal_req__core!ops.arith.Sub.sub._definition 6 #8732 #8736
[attach-var-names] #8737 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8738 ens%core!ops.arith.Sub.sub. #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #8739 proj%core!ops.arith.Sub./Output #1615 #1616 #1560 #1561
[mk-app] #8740 has_type #33 #8739
[mk-app] #8741 vstd!std_specs.ops.SubSpec.obeys_sub_spec.? #1615 #1616 #1560 #1561
[mk-app] #8742 %B #8741
[mk-app] #8743 vstd!std_specs.ops.SubSpec.sub_spec.? #1615 #1616 #1560 #1561 #43 #32
[mk-app] #8744 = #33 #8743
[mk-app] #8745 => #8742 #8744
[mk-app] #8746 and #8740 #8745
[mk-app] #8747 = #8738 #8746
[mk-app] #8748 pattern #8738
[mk-quant] #8749 internal_ens__core!ops.arith.Sub.sub._definition 7 #8748 #8747
[attach-var-names] #8749 (|ret!| ; |Poly|) (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8750 not #8742
[mk-app] #8751 or #8750 #8744
[inst-discovered] theory-solving 0x0 basic# ; #8745
[mk-app] #8752 = #8745 #8751
[instance] 0x0 #8752
[attach-enode] #8752 0
[end-of-instance]
[mk-app] #8752 and #8740 #8751
[mk-app] #8753 = #8738 #8752
[mk-quant] #8754 internal_ens__core!ops.arith.Sub.sub._definition 7 #8748 #8753
[attach-var-names] #8754 (|ret!| ; |Poly|) (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8755 vstd!std_specs.ops.MulSpec.mul_req.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8756 has_type #8755 #135
[mk-app] #8757 => #2596 #8756
[mk-app] #8758 pattern #8755
[mk-quant] #8759 internal_vstd!std_specs.ops.MulSpec.mul_req.?_pre_post_definition 6 #8758 #8757
[attach-var-names] #8759 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8760 or #2604 #8756
[inst-discovered] theory-solving 0x0 basic# ; #8757
[mk-app] #8761 = #8757 #8760
[instance] 0x0 #8761
[attach-enode] #8761 0
[end-of-instance]
[mk-quant] #8761 internal_vstd!std_specs.ops.MulSpec.mul_req.?_pre_post_definition 6 #8758 #8760
[attach-var-names] #8761 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8762 vstd!std_specs.ops.MulSpec.obeys_mul_spec.? #1593 #263 #44 #45
[mk-app] #8763 has_type #8762 #135
[mk-app] #8764 pattern #8762
[mk-quant] #8765 internal_vstd!std_specs.ops.MulSpec.obeys_mul_spec.?_pre_post_definition 4 #8764 #8763
[attach-var-names] #8765 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8766 vstd!std_specs.ops.MulSpec.mul_spec.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8767 proj%core!ops.arith.Mul./Output #1592 #1573 #1593 #263
[mk-app] #8768 has_type #8766 #8767
[mk-app] #8769 => #2596 #8768
[mk-app] #8770 pattern #8766
[mk-quant] #8771 internal_vstd!std_specs.ops.MulSpec.mul_spec.?_pre_post_definition 6 #8770 #8769
[attach-var-names] #8771 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8772 or #2604 #8768
[inst-discovered] theory-solving 0x0 basic# ; #8769
[mk-app] #8773 = #8769 #8772
[instance] 0x0 #8773
[attach-enode] #8773 0
[end-of-instance]
[mk-quant] #8773 internal_vstd!std_specs.ops.MulSpec.mul_spec.?_pre_post_definition 6 #8770 #8772
[attach-var-names] #8773 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8774 req%core!ops.arith.Mul.mul. #1592 #1573 #1593 #263 #32 #33
[mk-app] #8775 %%global_location_label%%10
[mk-app] #8776 %B #8755
[mk-app] #8777 => #8775 #8776
[mk-app] #8778 = #8774 #8777
[mk-app] #8779 pattern #8774
[mk-quant] #8780 internal_req__core!ops.arith.Mul.mul._definition 6 #8779 #8778
[attach-var-names] #8780 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8781 not #8775
[mk-app] #8782 or #8781 #8776
[inst-discovered] theory-solving 0x0 basic# ; #8777
[mk-app] #8783 = #8777 #8782
[instance] 0x0 #8783
[attach-enode] #8783 0
[end-of-instance]
[mk-app] #8783 = #8774 #8782
[mk-quant] #8784 internal_req__core!ops.arith.Mul.mul._definition 6 #8779 #8783
[attach-var-names] #8784 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8785 ens%core!ops.arith.Mul.mul. #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #8786 proj%core!ops.arith.Mul./Output #1615 #1616 #1560 #1561
[mk-app] #8787 has_type #33 #8786
[mk-app] #8788 vstd!std_specs.ops.MulSpec.obeys_mul_spec.? #1615 #1616 #1560 #1561
[mk-app] #8789 %B #8788
[mk-app] #8790 vstd!std_specs.ops.MulSpec.mul_spec.? #1615 #1616 #1560 #1561 #43 #32
[mk-app] #8791 = #33 #8790
[mk-app] #8792 => #8789 #8791
[mk-app] #8793 and #8787 #8792
[mk-app] #8794 = #8785 #8793
[mk-app] #8795 pattern #8785
[mk-quant] #8796 internal_ens__core!ops.arith.Mul.mul._definition 7 #8795 #8794
[attach-var-names] #8796 (|ret!| ; |Poly|) (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8797 not #8789
[mk-app] #8798 or #8797 #8791
[inst-discovered] theory-solving 0x0 basic# ; #8792
[mk-app] #8799 = #8792 #8798
[instance] 0x0 #8799
[attach-enode] #8799 0
[end-of-instance]
[mk-app] #8799 and #8787 #8798
[mk-app] #8800 = #8785 #8799
[mk-quant] #8801 internal_ens__core!ops.arith.Mul.mul._definition 7 #8795 #8800
[attach-var-names] #8801 (|ret!| ; |Poly|) (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8802 vstd!std_specs.ops.DivSpec.div_req.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8803 has_type #8802 #135
[mk-app] #8804 => #2596 #8803
[mk-app] #8805 pattern #8802
[mk-quant] #8806 internal_vstd!std_specs.ops.DivSpec.div_req.?_pre_post_definition 6 #8805 #8804
[attach-var-names] #8806 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8807 or #2604 #8803
[inst-discovered] theory-solving 0x0 basic# ; #8804
[mk-app] #8808 = #8804 #8807
[instance] 0x0 #8808
[attach-enode] #8808 0
[end-of-instance]
[mk-quant] #8808 internal_vstd!std_specs.ops.DivSpec.div_req.?_pre_post_definition 6 #8805 #8807
[attach-var-names] #8808 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8809 vstd!std_specs.ops.DivSpec.obeys_div_spec.? #1593 #263 #44 #45
[mk-app] #8810 has_type #8809 #135
[mk-app] #8811 pattern #8809
[mk-quant] #8812 internal_vstd!std_specs.ops.DivSpec.obeys_div_spec.?_pre_post_definition 4 #8811 #8810
[attach-var-names] #8812 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8813 vstd!std_specs.ops.DivSpec.div_spec.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8814 proj%core!ops.arith.Div./Output #1592 #1573 #1593 #263
[mk-app] #8815 has_type #8813 #8814
[mk-app] #8816 => #2596 #8815
[mk-app] #8817 pattern #8813
[mk-quant] #8818 internal_vstd!std_specs.ops.DivSpec.div_spec.?_pre_post_definition 6 #8817 #8816
[attach-var-names] #8818 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8819 or #2604 #8815
[inst-discovered] theory-solving 0x0 basic# ; #8816
[mk-app] #8820 = #8816 #8819
[instance] 0x0 #8820
[attach-enode] #8820 0
[end-of-instance]
[mk-quant] #8820 internal_vstd!std_specs.ops.DivSpec.div_spec.?_pre_post_definition 6 #8817 #8819
[attach-var-names] #8820 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8821 vstd!std_specs.ops.NegSpec.neg_req.? #64 #65 #33
[mk-app] #8822 has_type #8821 #135
[mk-app] #8823 => #68 #8822
[mk-app] #8824 pattern #8821
[mk-quant] #8825 internal_vstd!std_specs.ops.NegSpec.neg_req.?_pre_post_definition 3 #8824 #8823
[attach-var-names] #8825 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8826 or #2139 #8822
[inst-discovered] theory-solving 0x0 basic# ; #8823
[mk-app] #8827 = #8823 #8826
[instance] 0x0 #8827
[attach-enode] #8827 0
[end-of-instance]
[mk-quant] #8827 internal_vstd!std_specs.ops.NegSpec.neg_req.?_pre_post_definition 3 #8824 #8826
[attach-var-names] #8827 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8828 vstd!std_specs.ops.NegSpec.obeys_neg_spec.? #44 #45
[mk-app] #8829 has_type #8828 #135
[mk-app] #8830 pattern #8828
[mk-quant] #8831 internal_vstd!std_specs.ops.NegSpec.obeys_neg_spec.?_pre_post_definition 2 #8830 #8829
[attach-var-names] #8831 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8832 vstd!std_specs.ops.NegSpec.neg_spec.? #64 #65 #33
[mk-app] #8833 proj%core!ops.arith.Neg./Output #64 #65
[mk-app] #8834 has_type #8832 #8833
[mk-app] #8835 => #68 #8834
[mk-app] #8836 pattern #8832
[mk-quant] #8837 internal_vstd!std_specs.ops.NegSpec.neg_spec.?_pre_post_definition 3 #8836 #8835
[attach-var-names] #8837 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8838 or #2139 #8834
[inst-discovered] theory-solving 0x0 basic# ; #8835
[mk-app] #8839 = #8835 #8838
[instance] 0x0 #8839
[attach-enode] #8839 0
[end-of-instance]
[mk-quant] #8839 internal_vstd!std_specs.ops.NegSpec.neg_spec.?_pre_post_definition 3 #8836 #8838
[attach-var-names] #8839 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8840 req%core!ops.arith.Neg.neg. #64 #65 #33
[mk-app] #8841 %%global_location_label%%11
[mk-app] #8842 %B #8821
[mk-app] #8843 => #8841 #8842
[mk-app] #8844 = #8840 #8843
[mk-app] #8845 pattern #8840
[mk-quant] #8846 internal_req__core!ops.arith.Neg.neg._definition 3 #8845 #8844
[attach-var-names] #8846 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8847 not #8841
[mk-app] #8848 or #8847 #8842
[inst-discovered] theory-solving 0x0 basic# ; #8843
[mk-app] #8849 = #8843 #8848
[instance] 0x0 #8849
[attach-enode] #8849 0
[end-of-instance]
[mk-app] #8849 = #8840 #8848
[mk-quant] #8850 internal_req__core!ops.arith.Neg.neg._definition 3 #8845 #8849
[attach-var-names] #8850 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8851 ens%core!ops.arith.Neg.neg. #1593 #263 #32 #33
[mk-app] #8852 proj%core!ops.arith.Neg./Output #1593 #263
[mk-app] #8853 has_type #33 #8852
[mk-app] #8854 vstd!std_specs.ops.NegSpec.obeys_neg_spec.? #1593 #263
[mk-app] #8855 %B #8854
[mk-app] #8856 vstd!std_specs.ops.NegSpec.neg_spec.? #1593 #263 #32
[mk-app] #8857 = #33 #8856
[mk-app] #8858 => #8855 #8857
[mk-app] #8859 and #8853 #8858
[mk-app] #8860 = #8851 #8859
[mk-app] #8861 pattern #8851
[mk-quant] #8862 internal_ens__core!ops.arith.Neg.neg._definition 4 #8861 #8860
[attach-var-names] #8862 (|ret!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8863 not #8855
[mk-app] #8864 or #8863 #8857
[inst-discovered] theory-solving 0x0 basic# ; #8858
[mk-app] #8865 = #8858 #8864
[instance] 0x0 #8865
[attach-enode] #8865 0
[end-of-instance]
[mk-app] #8865 and #8853 #8864
[mk-app] #8866 = #8851 #8865
[mk-quant] #8867 internal_ens__core!ops.arith.Neg.neg._definition 4 #8861 #8866
[attach-var-names] #8867 (|ret!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8868 vstd!std_specs.ops.AddAssignSpec.add_assign_req.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8869 has_type #8868 #135
[mk-app] #8870 => #2596 #8869
[mk-app] #8871 pattern #8868
[mk-quant] #8872 internal_vstd!std_specs.ops.AddAssignSpec.add_assign_req.?_pre_post_definition 6 #8871 #8870
[attach-var-names] #8872 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8873 or #2604 #8869
[inst-discovered] theory-solving 0x0 basic# ; #8870
[mk-app] #8874 = #8870 #8873
[instance] 0x0 #8874
[attach-enode] #8874 0
[end-of-instance]
[mk-quant] #8874 internal_vstd!std_specs.ops.AddAssignSpec.add_assign_req.?_pre_post_definition 6 #8871 #8873
[attach-var-names] #8874 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8875 vstd!std_specs.ops.AddAssignSpec.obeys_add_assign_spec.? #1593 #263 #44 #45
[mk-app] #8876 has_type #8875 #135
[mk-app] #8877 pattern #8875
[mk-quant] #8878 internal_vstd!std_specs.ops.AddAssignSpec.obeys_add_assign_spec.?_pre_post_definition 4 #8877 #8876
[attach-var-names] #8878 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8879 vstd!std_specs.ops.AddAssignSpec.add_assign_spec.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8880 has_type #8879 #1573
[mk-app] #8881 => #2596 #8880
[mk-app] #8882 pattern #8879
[mk-quant] #8883 internal_vstd!std_specs.ops.AddAssignSpec.add_assign_spec.?_pre_post_definition 6 #8882 #8881
[attach-var-names] #8883 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8884 or #2604 #8880
[inst-discovered] theory-solving 0x0 basic# ; #8881
[mk-app] #8885 = #8881 #8884
[instance] 0x0 #8885
[attach-enode] #8885 0
[end-of-instance]
[mk-quant] #8885 internal_vstd!std_specs.ops.AddAssignSpec.add_assign_spec.?_pre_post_definition 6 #8882 #8884
[attach-var-names] #8885 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8886 req%core!ops.arith.AddAssign.add_assign. #1592 #1573 #1593 #263 #32 #33
[mk-app] #8887 %%global_location_label%%12
[mk-app] #8888 vstd!std_specs.ops.AddAssignSpec.add_assign_req.? #1592 #1573 #1593 #263 #5699 #33
[mk-app] #8889 %B #8888
[mk-app] #8890 => #8887 #8889
[mk-app] #8891 = #8886 #8890
[mk-app] #8892 pattern #8886
[mk-quant] #8893 internal_req__core!ops.arith.AddAssign.add_assign._definition 6 #8892 #8891
[attach-var-names] #8893 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8894 not #8887
[mk-app] #8895 or #8894 #8889
[inst-discovered] theory-solving 0x0 basic# ; #8890
[mk-app] #8896 = #8890 #8895
[instance] 0x0 #8896
[attach-enode] #8896 0
[end-of-instance]
[mk-app] #8896 = #8886 #8895
[mk-quant] #8897 internal_req__core!ops.arith.AddAssign.add_assign._definition 6 #8892 #8896
[attach-var-names] #8897 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8898 ens%core!ops.arith.AddAssign.add_assign. #1592 #1573 #1593 #263 #32 #33
[mk-app] #8899 vstd!std_specs.ops.AddAssignSpec.obeys_add_assign_spec.? #1592 #1573 #1593 #263
[mk-app] #8900 %B #8899
[mk-app] #8901 vstd!std_specs.ops.AddAssignSpec.add_assign_spec.? #1592 #1573 #1593 #263 #5699 #33
[mk-app] #8902 = #40 #8901
[mk-app] #8903 => #8900 #8902
[mk-app] #8904 = #8898 #8903
[mk-app] #8905 pattern #8898
[mk-quant] #8906 internal_ens__core!ops.arith.AddAssign.add_assign._definition 6 #8905 #8904
[attach-var-names] #8906 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8907 not #8900
[mk-app] #8908 or #8907 #8902
[inst-discovered] theory-solving 0x0 basic# ; #8903
[mk-app] #8909 = #8903 #8908
[instance] 0x0 #8909
[attach-enode] #8909 0
[end-of-instance]
[mk-app] #8909 = #8898 #8908
[mk-quant] #8910 internal_ens__core!ops.arith.AddAssign.add_assign._definition 6 #8905 #8909
[attach-var-names] #8910 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8911 vstd!std_specs.ops.SubAssignSpec.sub_assign_req.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8912 has_type #8911 #135
[mk-app] #8913 => #2596 #8912
[mk-app] #8914 pattern #8911
[mk-quant] #8915 internal_vstd!std_specs.ops.SubAssignSpec.sub_assign_req.?_pre_post_definition 6 #8914 #8913
[attach-var-names] #8915 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8916 or #2604 #8912
[inst-discovered] theory-solving 0x0 basic# ; #8913
[mk-app] #8917 = #8913 #8916
[instance] 0x0 #8917
[attach-enode] #8917 0
[end-of-instance]
[mk-quant] #8917 internal_vstd!std_specs.ops.SubAssignSpec.sub_assign_req.?_pre_post_definition 6 #8914 #8916
[attach-var-names] #8917 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8918 vstd!std_specs.ops.SubAssignSpec.obeys_sub_assign_spec.? #1593 #263 #44 #45
[mk-app] #8919 has_type #8918 #135
[mk-app] #8920 pattern #8918
[mk-quant] #8921 internal_vstd!std_specs.ops.SubAssignSpec.obeys_sub_assign_spec.?_pre_post_definition 4 #8920 #8919
[attach-var-names] #8921 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8922 vstd!std_specs.ops.SubAssignSpec.sub_assign_spec.? #1592 #1573 #1593 #263 #32 #33
[mk-app] #8923 has_type #8922 #1573
[mk-app] #8924 => #2596 #8923
[mk-app] #8925 pattern #8922
[mk-quant] #8926 internal_vstd!std_specs.ops.SubAssignSpec.sub_assign_spec.?_pre_post_definition 6 #8925 #8924
[attach-var-names] #8926 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8927 or #2604 #8923
[inst-discovered] theory-solving 0x0 basic# ; #8924
[mk-app] #8928 = #8924 #8927
[instance] 0x0 #8928
[attach-enode] #8928 0
[end-of-instance]
[mk-quant] #8928 internal_vstd!std_specs.ops.SubAssignSpec.sub_assign_spec.?_pre_post_definition 6 #8925 #8927
[attach-var-names] #8928 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8929 req%core!ops.arith.SubAssign.sub_assign. #1592 #1573 #1593 #263 #32 #33
[mk-app] #8930 %%global_location_label%%13
[mk-app] #8931 vstd!std_specs.ops.SubAssignSpec.sub_assign_req.? #1592 #1573 #1593 #263 #5699 #33
[mk-app] #8932 %B #8931
[mk-app] #8933 => #8930 #8932
[mk-app] #8934 = #8929 #8933
[mk-app] #8935 pattern #8929
[mk-quant] #8936 internal_req__core!ops.arith.SubAssign.sub_assign._definition 6 #8935 #8934
[attach-var-names] #8936 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8937 not #8930
[mk-app] #8938 or #8937 #8932
[inst-discovered] theory-solving 0x0 basic# ; #8933
[mk-app] #8939 = #8933 #8938
[instance] 0x0 #8939
[attach-enode] #8939 0
[end-of-instance]
[mk-app] #8939 = #8929 #8938
[mk-quant] #8940 internal_req__core!ops.arith.SubAssign.sub_assign._definition 6 #8935 #8939
[attach-var-names] #8940 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8941 ens%core!ops.arith.SubAssign.sub_assign. #1592 #1573 #1593 #263 #32 #33
[mk-app] #8942 vstd!std_specs.ops.SubAssignSpec.obeys_sub_assign_spec.? #1592 #1573 #1593 #263
[mk-app] #8943 %B #8942
[mk-app] #8944 vstd!std_specs.ops.SubAssignSpec.sub_assign_spec.? #1592 #1573 #1593 #263 #5699 #33
[mk-app] #8945 = #40 #8944
[mk-app] #8946 => #8943 #8945
[mk-app] #8947 = #8941 #8946
[mk-app] #8948 pattern #8941
[mk-quant] #8949 internal_ens__core!ops.arith.SubAssign.sub_assign._definition 6 #8948 #8947
[attach-var-names] #8949 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8950 not #8943
[mk-app] #8951 or #8950 #8945
[inst-discovered] theory-solving 0x0 basic# ; #8946
[mk-app] #8952 = #8946 #8951
[instance] 0x0 #8952
[attach-enode] #8952 0
[end-of-instance]
[mk-app] #8952 = #8941 #8951
[mk-quant] #8953 internal_ens__core!ops.arith.SubAssign.sub_assign._definition 6 #8948 #8952
[attach-var-names] #8953 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8954 g1!g.MatrixDataTypeBase.val.? #64 #65 #33
[mk-app] #8955 has_type #8954 #140
[mk-app] #8956 => #68 #8955
[mk-app] #8957 pattern #8954
[mk-quant] #8958 internal_g1!g.MatrixDataTypeBase.val.?_pre_post_definition 3 #8957 #8956
[attach-var-names] #8958 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8959 or #2139 #8955
[inst-discovered] theory-solving 0x0 basic# ; #8956
[mk-app] #8960 = #8956 #8959
[instance] 0x0 #8960
[attach-enode] #8960 0
[end-of-instance]
[mk-quant] #8960 internal_g1!g.MatrixDataTypeBase.val.?_pre_post_definition 3 #8957 #8959
[attach-var-names] #8960 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #8961 fuel_bool_default #1291
[mk-app] #8962 fuel_bool #1291
[mk-app] #8963 g1!g.laws_hold.? #44 #45
[mk-app] #8964 vstd!std_specs.ops.AddSpec.obeys_add_spec.? #44 #45 #44 #45
[mk-app] #8965 %B #8964
[mk-app] #8966 vstd!std_specs.ops.SubSpec.obeys_sub_spec.? #44 #45 #44 #45
[mk-app] #8967 %B #8966
[mk-app] #8968 and #8965 #8967
[mk-app] #8969 vstd!std_specs.ops.MulSpec.obeys_mul_spec.? #44 #45 #44 #45
[mk-app] #8970 %B #8969
[mk-app] #8971 and #8968 #8970
[mk-app] #8972 vstd!std_specs.ops.DivSpec.obeys_div_spec.? #44 #45 #44 #45
[mk-app] #8973 %B #8972
[mk-app] #8974 and #8971 #8973
[mk-app] #8975 %B #8828
[mk-app] #8976 and #8974 #8975
[mk-app] #8977 vstd!std_specs.ops.AddAssignSpec.obeys_add_assign_spec.? #44 #45 #44 #45
[mk-app] #8978 %B #8977
[mk-app] #8979 and #8976 #8978
[mk-app] #8980 vstd!std_specs.ops.SubAssignSpec.obeys_sub_assign_spec.? #44 #45 #44 #45
[mk-app] #8981 %B #8980
[mk-app] #8982 and #8979 #8981
[mk-app] #8983 vstd!std_specs.cmp.PartialOrdSpec.obeys_partial_cmp_spec.? #44 #45 #44 #45
[mk-app] #8984 %B #8983
[mk-app] #8985 and #8982 #8984
[mk-app] #8986 vstd!std_specs.cmp.PartialEqSpec.obeys_eq_spec.? #44 #45 #44 #45
[mk-app] #8987 %B #8986
[mk-app] #8988 and #8985 #8987
[mk-app] #8989 vstd!std_specs.ops.AddSpec.add_req.? #1593 #263 #1593 #263 #32 #33
[mk-app] #8990 %B #8989
[mk-app] #8991 => #2316 #8990
[mk-app] #8992 pattern #8989
[mk-quant] #8993 user_g1__g__laws_hold_0 2 #8992 #8991
[attach-var-names] #8993 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #8994 and #8988 #8993
[mk-app] #8995 vstd!std_specs.ops.SubSpec.sub_req.? #1593 #263 #1593 #263 #32 #33
[mk-app] #8996 %B #8995
[mk-app] #8997 => #2316 #8996
[mk-app] #8998 pattern #8995
[mk-quant] #8999 user_g1__g__laws_hold_1 2 #8998 #8997
[attach-var-names] #8999 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9000 and #8994 #8999
[mk-app] #9001 vstd!std_specs.ops.MulSpec.mul_req.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9002 %B #9001
[mk-app] #9003 => #2316 #9002
[mk-app] #9004 pattern #9001
[mk-quant] #9005 user_g1__g__laws_hold_2 2 #9004 #9003
[attach-var-names] #9005 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9006 and #9000 #9005
[mk-app] #9007 vstd!std_specs.ops.DivSpec.div_req.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9008 %B #9007
[mk-app] #9009 => #2316 #9008
[mk-app] #9010 pattern #9007
[mk-quant] #9011 user_g1__g__laws_hold_3 2 #9010 #9009
[attach-var-names] #9011 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9012 and #9006 #9011
[mk-app] #9013 => #68 #8842
[mk-quant] #9014 user_g1__g__laws_hold_4 1 #8824 #9013
[attach-var-names] #9014 (|a$| ; |Poly|)
[mk-app] #9015 and #9012 #9014
[mk-app] #9016 vstd!std_specs.ops.AddAssignSpec.add_assign_req.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9017 %B #9016
[mk-app] #9018 => #2316 #9017
[mk-app] #9019 pattern #9016
[mk-quant] #9020 user_g1__g__laws_hold_5 2 #9019 #9018
[attach-var-names] #9020 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9021 and #9015 #9020
[mk-app] #9022 vstd!std_specs.ops.SubAssignSpec.sub_assign_req.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9023 %B #9022
[mk-app] #9024 => #2316 #9023
[mk-app] #9025 pattern #9022
[mk-quant] #9026 user_g1__g__laws_hold_6 2 #9025 #9024
[attach-var-names] #9026 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9027 and #9021 #9026
[mk-app] #9028 vstd!std_specs.ops.AddSpec.add_spec.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9029 g1!g.MatrixDataTypeBase.val.? #1593 #263 #9028
[mk-app] #9030 %R #9029
[mk-app] #9031 g1!g.MatrixDataTypeBase.val.? #1593 #263 #32
[mk-app] #9032 %R #9031
[mk-app] #9033 g1!g.MatrixDataTypeBase.val.? #1593 #263 #33
[mk-app] #9034 %R #9033
[mk-app] #9035 RAdd #9032 #9034
[mk-app] #9036 = #9030 #9035
[mk-app] #9037 => #2316 #9036
[mk-app] #9038 pattern #9028
[mk-quant] #9039 user_g1__g__laws_hold_7 2 #9038 #9037
[attach-var-names] #9039 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9040 and #9027 #9039
[mk-app] #9041 vstd!std_specs.ops.SubSpec.sub_spec.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9042 g1!g.MatrixDataTypeBase.val.? #1593 #263 #9041
[mk-app] #9043 %R #9042
[mk-app] #9044 RSub #9032 #9034
[mk-app] #9045 = #9043 #9044
[mk-app] #9046 => #2316 #9045
[mk-app] #9047 pattern #9041
[mk-quant] #9048 user_g1__g__laws_hold_8 2 #9047 #9046
[attach-var-names] #9048 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9049 and #9040 #9048
[mk-app] #9050 vstd!std_specs.ops.MulSpec.mul_spec.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9051 g1!g.MatrixDataTypeBase.val.? #1593 #263 #9050
[mk-app] #9052 %R #9051
[mk-app] #9053 RMul #9032 #9034
[mk-app] #9054 = #9052 #9053
[mk-app] #9055 => #2316 #9054
[mk-app] #9056 pattern #9050
[mk-quant] #9057 user_g1__g__laws_hold_9 2 #9056 #9055
[attach-var-names] #9057 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9058 and #9049 #9057
[mk-app] #9059 = #9034 #602
[mk-app] #9060 not #9059
[mk-app] #9061 vstd!std_specs.ops.DivSpec.div_spec.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9062 g1!g.MatrixDataTypeBase.val.? #1593 #263 #9061
[mk-app] #9063 %R #9062
[mk-app] #9064 RDiv #9032 #9034
[mk-app] #9065 = #9063 #9064
[mk-app] #9066 => #9060 #9065
[mk-app] #9067 => #2316 #9066
[mk-app] #9068 pattern #9061
[mk-quant] #9069 user_g1__g__laws_hold_10 2 #9068 #9067
[attach-var-names] #9069 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9070 and #9058 #9069
[mk-app] #9071 g1!g.MatrixDataTypeBase.val.? #64 #65 #8832
[mk-app] #9072 %R #9071
[mk-app] #9073 %R #8954
[mk-app] #9074 RSub #602 #9073
[mk-app] #9075 = #9072 #9074
[mk-app] #9076 => #68 #9075
[mk-quant] #9077 user_g1__g__laws_hold_11 1 #8836 #9076
[attach-var-names] #9077 (|a$| ; |Poly|)
[mk-app] #9078 and #9070 #9077
[mk-app] #9079 vstd!std_specs.ops.AddAssignSpec.add_assign_spec.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9080 g1!g.MatrixDataTypeBase.val.? #1593 #263 #9079
[mk-app] #9081 %R #9080
[mk-app] #9082 = #9081 #9035
[mk-app] #9083 => #2316 #9082
[mk-app] #9084 pattern #9079
[mk-quant] #9085 user_g1__g__laws_hold_12 2 #9084 #9083
[attach-var-names] #9085 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9086 and #9078 #9085
[mk-app] #9087 vstd!std_specs.ops.SubAssignSpec.sub_assign_spec.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9088 g1!g.MatrixDataTypeBase.val.? #1593 #263 #9087
[mk-app] #9089 %R #9088
[mk-app] #9090 = #9089 #9044
[mk-app] #9091 => #2316 #9090
[mk-app] #9092 pattern #9087
[mk-quant] #9093 user_g1__g__laws_hold_13 2 #9092 #9091
[attach-var-names] #9093 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9094 and #9086 #9093
[mk-app] #9095 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9096 %B #9095
[mk-app] #9097 = #9031 #9033
[mk-app] #9098 = #9096 #9097
[mk-app] #9099 => #2316 #9098
[mk-app] #9100 pattern #9095
[mk-quant] #9101 user_g1__g__laws_hold_14 2 #9100 #9099
[attach-var-names] #9101 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9102 and #9094 #9101
[mk-app] #9103 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #1593 #263 #1593 #263 #32 #33
[mk-app] #9104 %Poly%core!option.Option. #9103
[mk-app] #9105 < #9032 #9034
[mk-app] #9106 if #9097 #6436 #6433
[mk-app] #9107 if #9105 #6429 #9106
[mk-app] #9108 = #9104 #9107
[mk-app] #9109 => #2316 #9108
[mk-app] #9110 pattern #9103
[mk-quant] #9111 user_g1__g__laws_hold_15 2 #9110 #9109
[attach-var-names] #9111 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9112 and #9102 #9111
[mk-app] #9113 g1!g.MatrixDataTypeBase.val.? #44 #45 #8639
[mk-app] #9114 %R #9113
[mk-app] #9115 = #9114 #602
[mk-app] #9116 and #9112 #9115
[mk-app] #9117 g1!g.MatrixDataTypeBase.val.? #44 #45 #8650
[mk-app] #9118 %R #9117
[mk-app] #9119 Real
[attach-meaning] #9119 arith 1
[mk-app] #9120 = #9118 #9119
[mk-app] #9121 and #9116 #9120
[mk-app] #9122 = #8963 #9121
[mk-app] #9123 pattern #8963
[mk-quant] #9124 internal_g1!g.laws_hold.?_definition 2 #9123 #9122
[attach-var-names] #9124 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9125 => #8962 #9124
[mk-app] #9126 or #2324 #8990
[inst-discovered] theory-solving 0x0 basic# ; #8991
[mk-app] #9127 = #8991 #9126
[instance] 0x0 #9127
[attach-enode] #9127 0
[end-of-instance]
[mk-quant] #9127 user_g1__g__laws_hold_0 2 #8992 #9126
[attach-var-names] #9127 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9128 or #2324 #8996
[inst-discovered] theory-solving 0x0 basic# ; #8997
[mk-app] #9129 = #8997 #9128
[instance] 0x0 #9129
[attach-enode] #9129 0
[end-of-instance]
[mk-quant] #9129 user_g1__g__laws_hold_1 2 #8998 #9128
[attach-var-names] #9129 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9130 or #2324 #9002
[inst-discovered] theory-solving 0x0 basic# ; #9003
[mk-app] #9131 = #9003 #9130
[instance] 0x0 #9131
[attach-enode] #9131 0
[end-of-instance]
[mk-quant] #9131 user_g1__g__laws_hold_2 2 #9004 #9130
[attach-var-names] #9131 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9132 or #2324 #9008
[inst-discovered] theory-solving 0x0 basic# ; #9009
[mk-app] #9133 = #9009 #9132
[instance] 0x0 #9133
[attach-enode] #9133 0
[end-of-instance]
[mk-quant] #9133 user_g1__g__laws_hold_3 2 #9010 #9132
[attach-var-names] #9133 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9134 or #2139 #8842
[inst-discovered] theory-solving 0x0 basic# ; #9013
[mk-app] #9135 = #9013 #9134
[instance] 0x0 #9135
[attach-enode] #9135 0
[end-of-instance]
[mk-quant] #9135 user_g1__g__laws_hold_4 1 #8824 #9134
[attach-var-names] #9135 (|a$| ; |Poly|)
[mk-app] #9136 or #2324 #9017
[inst-discovered] theory-solving 0x0 basic# ; #9018
[mk-app] #9137 = #9018 #9136
[instance] 0x0 #9137
[attach-enode] #9137 0
[end-of-instance]
[mk-quant] #9137 user_g1__g__laws_hold_5 2 #9019 #9136
[attach-var-names] #9137 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9138 or #2324 #9023
[inst-discovered] theory-solving 0x0 basic# ; #9024
[mk-app] #9139 = #9024 #9138
[instance] 0x0 #9139
[attach-enode] #9139 0
[end-of-instance]
[mk-quant] #9139 user_g1__g__laws_hold_6 2 #9025 #9138
[attach-var-names] #9139 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9140 or #2324 #9036
[inst-discovered] theory-solving 0x0 basic# ; #9037
[mk-app] #9141 = #9037 #9140
[instance] 0x0 #9141
[attach-enode] #9141 0
[end-of-instance]
[mk-quant] #9141 user_g1__g__laws_hold_7 2 #9038 #9140
[attach-var-names] #9141 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9142 or #2324 #9045
[inst-discovered] theory-solving 0x0 basic# ; #9046
[mk-app] #9143 = #9046 #9142
[instance] 0x0 #9143
[attach-enode] #9143 0
[end-of-instance]
[mk-quant] #9143 user_g1__g__laws_hold_8 2 #9047 #9142
[attach-var-names] #9143 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9144 or #2324 #9054
[inst-discovered] theory-solving 0x0 basic# ; #9055
[mk-app] #9145 = #9055 #9144
[instance] 0x0 #9145
[attach-enode] #9145 0
[end-of-instance]
[mk-quant] #9145 user_g1__g__laws_hold_9 2 #9056 #9144
[attach-var-names] #9145 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9146 or #9059 #9065
[inst-discovered] theory-solving 0x0 basic# ; #9066
[mk-app] #9147 = #9066 #9146
[instance] 0x0 #9147
[attach-enode] #9147 0
[end-of-instance]
[mk-app] #9147 or #2324 #9059 #9065
[mk-app] #9148 => #2316 #9146
[inst-discovered] theory-solving 0x0 basic# ; #9148
[mk-app] #9149 = #9148 #9147
[instance] 0x0 #9149
[attach-enode] #9149 0
[end-of-instance]
[mk-quant] #9146 user_g1__g__laws_hold_10 2 #9068 #9147
[attach-var-names] #9146 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9148 or #2139 #9075
[inst-discovered] theory-solving 0x0 basic# ; #9076
[mk-app] #9149 = #9076 #9148
[instance] 0x0 #9149
[attach-enode] #9149 0
[end-of-instance]
[mk-quant] #9149 user_g1__g__laws_hold_11 1 #8836 #9148
[attach-var-names] #9149 (|a$| ; |Poly|)
[mk-app] #9150 or #2324 #9082
[inst-discovered] theory-solving 0x0 basic# ; #9083
[mk-app] #9151 = #9083 #9150
[instance] 0x0 #9151
[attach-enode] #9151 0
[end-of-instance]
[mk-quant] #9151 user_g1__g__laws_hold_12 2 #9084 #9150
[attach-var-names] #9151 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9152 or #2324 #9090
[inst-discovered] theory-solving 0x0 basic# ; #9091
[mk-app] #9153 = #9091 #9152
[instance] 0x0 #9153
[attach-enode] #9153 0
[end-of-instance]
[mk-quant] #9153 user_g1__g__laws_hold_13 2 #9092 #9152
[attach-var-names] #9153 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9154 or #2324 #9098
[inst-discovered] theory-solving 0x0 basic# ; #9099
[mk-app] #9155 = #9099 #9154
[instance] 0x0 #9155
[attach-enode] #9155 0
[end-of-instance]
[mk-quant] #9155 user_g1__g__laws_hold_14 2 #9100 #9154
[attach-var-names] #9155 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9156 <= #9034 #9032
[mk-app] #9157 not #9156
[inst-discovered] theory-solving 0x0 arith# ; #9105
[mk-app] #9158 = #9105 #9157
[instance] 0x0 #9158
[attach-enode] #9158 0
[end-of-instance]
[attach-meaning] #599 arith (- 1)
[mk-app] #9158 * #599 #9032
[mk-app] #9159 + #9158 #9034
[attach-meaning] #599 arith (- 1)
[mk-app] #9160 * #599 #9034
[mk-app] #9161 + #9032 #9160
[mk-app] #9158 >= #9161 #602
[inst-discovered] theory-solving 0x0 arith# ; #9156
[mk-app] #9159 = #9156 #9158
[instance] 0x0 #9159
[attach-enode] #9159 0
[end-of-instance]
[mk-app] #9159 not #9158
[mk-app] #9162 if #9158 #9106 #6429
[mk-app] #9163 if #9159 #6429 #9106
[inst-discovered] theory-solving 0x0 datatype# ; #9163
[mk-app] #9164 = #9163 #9162
[instance] 0x0 #9164
[attach-enode] #9164 0
[end-of-instance]
[mk-app] #9163 = #9104 #9162
[mk-app] #9164 or #2324 #9163
[mk-app] #9165 => #2316 #9163
[inst-discovered] theory-solving 0x0 basic# ; #9165
[mk-app] #9166 = #9165 #9164
[instance] 0x0 #9166
[attach-enode] #9166 0
[end-of-instance]
[mk-quant] #9165 user_g1__g__laws_hold_15 2 #9110 #9164
[attach-var-names] #9165 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #9159 and #8965 #8967 #8970 #8973 #8975 #8978 #8981 #8984 #8987 #9127 #9129 #9131 #9133 #9135 #9137 #9139 #9141 #9143 #9145 #9146 #9149 #9151 #9153 #9155 #9165 #9115 #9120
[mk-app] #9156 = #8963 #9159
[mk-quant] #9157 internal_g1!g.laws_hold.?_definition 2 #9123 #9156
[attach-var-names] #9157 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9166 not #8962
[mk-app] #9167 or #9166 #9157
[mk-app] #9168 => #8962 #9157
[inst-discovered] theory-solving 0x0 basic# ; #9168
[mk-app] #9169 = #9168 #9167
[instance] 0x0 #9169
[attach-enode] #9169 0
[end-of-instance]
[mk-app] #9168 fuel_bool_default #1292
[mk-app] #9169 fuel_bool #1292
[mk-app] #9170 g1!g.ix.? #43 #32 #33
[mk-app] #9171 Mul #666 #186
[mk-app] #9172 Add #9171 #676
[mk-app] #9173 = #9170 #9172
[mk-app] #9174 pattern #9170
[mk-quant] #9175 internal_g1!g.ix.?_definition 3 #9174 #9173
[attach-var-names] #9175 (|c!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|)
[mk-app] #9176 => #9169 #9175
[mk-app] #9177 not #9169
[mk-app] #9178 or #9177 #9175
[inst-discovered] theory-solving 0x0 basic# ; #9176
[mk-app] #9179 = #9176 #9178
[instance] 0x0 #9179
[attach-enode] #9179 0
[end-of-instance]
[mk-app] #9179 fuel_bool #1302
[mk-app] #9180 has_type #5623 #184
[mk-app] #9181 and #9180 #5626 #5494 #5279 #185
[mk-app] #9182 < #5629 #186
[mk-app] #9183 and #5631 #9182
[mk-app] #9184 and #729 #6426
[mk-app] #9185 and #9183 #9184
[mk-app] #9186 g1!g.ix.? #5623 #63 #33
[mk-app] #9187 = #9186 #9170
[mk-app] #9188 and #9185 #9187
[mk-app] #9189 = #5623 #43
[mk-app] #9190 = #63 #32
[mk-app] #9191 and #9189 #9190
[mk-app] #9192 => #9188 #9191
[mk-app] #9193 => #9181 #9192
[mk-app] #9194 pattern #9186 #9170
[mk-quant] #9195 user_g1__g__ix_inj_0 5 #9194 #9193
[attach-var-names] #9195 (|c!| ; |Poly|) (|q!| ; |Poly|) (|p!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|)
[mk-app] #9196 => #9179 #9195
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5631
[mk-app] #9197 = #5631 #5661
[instance] 0x0 #9197
[attach-enode] #9197 0
[end-of-instance]
[mk-app] #9197 <= #186 #5629
[mk-app] #9198 not #9197
[inst-discovered] theory-solving 0x0 arith# ; #9182
[mk-app] #9199 = #9182 #9198
[instance] 0x0 #9199
[attach-enode] #9199 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9199 + #186 #5662
[mk-app] #9200 <= #9199 #336
[inst-discovered] theory-solving 0x0 arith# ; #9197
[mk-app] #9201 = #9197 #9200
[instance] 0x0 #9201
[attach-enode] #9201 0
[end-of-instance]
[mk-app] #9201 not #9200
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #9202 = #729 #738
[instance] 0x0 #9202
[attach-enode] #9202 0
[end-of-instance]
[mk-app] #9202 <= #186 #676
[mk-app] #9203 not #9202
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #9204 = #6426 #9203
[instance] 0x0 #9204
[attach-enode] #9204 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9202
[mk-app] #9204 = #9202 #6446
[instance] 0x0 #9204
[attach-enode] #9204 0
[end-of-instance]
[mk-app] #9204 and #5661 #9201 #738 #6497 #9187
[mk-app] #9205 not #9204
[mk-app] #9206 or #9205 #9191
[mk-app] #9207 => #9204 #9191
[inst-discovered] theory-solving 0x0 basic# ; #9207
[mk-app] #9208 = #9207 #9206
[instance] 0x0 #9208
[attach-enode] #9208 0
[end-of-instance]
[mk-app] #9207 not #9181
[mk-app] #9208 or #9207 #9205 #9191
[mk-app] #9209 => #9181 #9206
[inst-discovered] theory-solving 0x0 basic# ; #9209
[mk-app] #9210 = #9209 #9208
[instance] 0x0 #9210
[attach-enode] #9210 0
[end-of-instance]
[mk-quant] #9206 user_g1__g__ix_inj_0 5 #9194 #9208
[attach-var-names] #9206 (|c!| ; |Poly|) (|q!| ; |Poly|) (|p!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|)
[mk-app] #9197 not #9179
[mk-app] #9198 or #9197 #9206
[mk-app] #9202 => #9179 #9206
[inst-discovered] theory-solving 0x0 basic# ; #9202
[mk-app] #9203 = #9202 #9198
[instance] 0x0 #9203
[attach-enode] #9203 0
[end-of-instance]
[mk-app] #9202 fuel_bool #1303
[mk-app] #9203 and #5626 #5494 #5279
[mk-app] #9209 < #5629 #122
[mk-app] #9210 and #5631 #9209
[mk-app] #9211 < #666 #676
[mk-app] #9212 and #5584 #9211
[mk-app] #9213 and #9210 #9212
[mk-app] #9214 Mul #5629 #676
[mk-app] #9215 g1!g.ix.? #63 #43 #32
[mk-app] #9216 Mul #122 #676
[mk-app] #9217 <= #336 #9214
[mk-app] #9218 <= #9214 #9215
[mk-app] #9219 and #9217 #9218
[mk-app] #9220 < #9215 #9216
[mk-app] #9221 and #9219 #9220
[mk-app] #9222 => #9213 #9221
[mk-app] #9223 => #9203 #9222
[mk-app] #9224 pattern #9215 #9216
[mk-quant] #9225 user_g1__g__ix_bound_0 4 #9224 #9223
[attach-var-names] #9225 (|r!| ; |Int|) (|c!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|)
[mk-app] #9226 => #9202 #9225
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5631
[mk-app] #9227 = #5631 #5661
[instance] 0x0 #9227
[attach-enode] #9227 0
[end-of-instance]
[mk-app] #9227 <= #122 #5629
[mk-app] #9228 not #9227
[inst-discovered] theory-solving 0x0 arith# ; #9209
[mk-app] #9229 = #9209 #9228
[instance] 0x0 #9229
[attach-enode] #9229 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9229 + #122 #5662
[mk-app] #9230 <= #9229 #336
[inst-discovered] theory-solving 0x0 arith# ; #9227
[mk-app] #9231 = #9227 #9230
[instance] 0x0 #9231
[attach-enode] #9231 0
[end-of-instance]
[mk-app] #9231 not #9230
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5584
[mk-app] #9232 = #5584 #5605
[instance] 0x0 #9232
[attach-enode] #9232 0
[end-of-instance]
[mk-app] #9232 <= #676 #666
[mk-app] #9233 not #9232
[inst-discovered] theory-solving 0x0 arith# ; #9211
[mk-app] #9234 = #9211 #9233
[instance] 0x0 #9234
[attach-enode] #9234 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9234 + #5372 #676
[attach-meaning] #365 arith (- 1)
[mk-app] #9234 >= #5606 #336
[inst-discovered] theory-solving 0x0 arith# ; #9232
[mk-app] #9235 = #9232 #9234
[instance] 0x0 #9235
[attach-enode] #9235 0
[end-of-instance]
[mk-app] #9235 not #9234
[mk-app] #9236 and #5661 #9231 #5605 #9235
[attach-meaning] #365 arith (- 1)
[mk-app] #9237 * #365 #9214
[mk-app] #9238 >= #9214 #336
[inst-discovered] theory-solving 0x0 arith# ; #9217
[mk-app] #9237 = #9217 #9238
[instance] 0x0 #9237
[attach-enode] #9237 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9237 * #365 #9215
[mk-app] #9239 + #9214 #9237
[mk-app] #9240 <= #9239 #336
[inst-discovered] theory-solving 0x0 arith# ; #9218
[mk-app] #9241 = #9218 #9240
[instance] 0x0 #9241
[attach-enode] #9241 0
[end-of-instance]
[mk-app] #9241 <= #9216 #9215
[mk-app] #9242 not #9241
[inst-discovered] theory-solving 0x0 arith# ; #9220
[mk-app] #9243 = #9220 #9242
[instance] 0x0 #9243
[attach-enode] #9243 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9243 + #9237 #9216
[attach-meaning] #365 arith (- 1)
[mk-app] #9244 * #365 #9216
[mk-app] #9245 + #9215 #9244
[mk-app] #9243 >= #9245 #336
[inst-discovered] theory-solving 0x0 arith# ; #9241
[mk-app] #9246 = #9241 #9243
[instance] 0x0 #9246
[attach-enode] #9246 0
[end-of-instance]
[mk-app] #9246 not #9243
[mk-app] #9247 and #9238 #9240 #9246
[mk-app] #9248 not #9236
[mk-app] #9249 or #9248 #9247
[mk-app] #9250 => #9236 #9247
[inst-discovered] theory-solving 0x0 basic# ; #9250
[mk-app] #9251 = #9250 #9249
[instance] 0x0 #9251
[attach-enode] #9251 0
[end-of-instance]
[mk-app] #9250 not #9203
[mk-app] #9251 or #9250 #9248 #9247
[mk-app] #9252 => #9203 #9249
[inst-discovered] theory-solving 0x0 basic# ; #9252
[mk-app] #9253 = #9252 #9251
[instance] 0x0 #9253
[attach-enode] #9253 0
[end-of-instance]
[mk-quant] #9249 user_g1__g__ix_bound_0 4 #9224 #9251
[attach-var-names] #9249 (|r!| ; |Int|) (|c!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|)
[mk-app] #9241 not #9202
[mk-app] #9242 or #9241 #9249
[mk-app] #9227 => #9202 #9249
[inst-discovered] theory-solving 0x0 basic# ; #9227
[mk-app] #9228 = #9227 #9242
[instance] 0x0 #9228
[attach-enode] #9228 0
[end-of-instance]
[mk-app] #9227 ens%g1!g.idx_succ. #219 #122
[mk-app] #9228 Add #219 #291
[mk-app] #9232 Mul #9228 #122
[mk-app] #9233 Add #561 #122
[mk-app] #9252 = #9232 #9233
[mk-app] #9253 = #9227 #9252
[mk-app] #9254 pattern #9227
[mk-quant] #9255 internal_ens__g1!g.idx_succ._definition 2 #9254 #9253
[attach-var-names] #9255 (|c!| ; |Int|) (|i!| ; |Int|)
[mk-app] #9256 fuel_bool #1304
[mk-app] #9257 pattern #9232
[mk-quant] #9258 user_g1__g__idx_succ_0 2 #9257 #9252
[attach-var-names] #9258 (|c!| ; |Int|) (|i!| ; |Int|)
[mk-app] #9259 => #9256 #9258
[mk-app] #9260 not #9256
[mk-app] #9261 or #9260 #9258
[inst-discovered] theory-solving 0x0 basic# ; #9259
[mk-app] #9262 = #9259 #9261
[instance] 0x0 #9262
[attach-enode] #9262 0
[end-of-instance]
[mk-app] #9262 ens%g1!matrix.data_type.MatrixDataType.laws. #44 #45
[mk-app] #9263 = #9262 #8963
[mk-app] #9264 pattern #9262
[mk-quant] #9265 internal_ens__g1!matrix.data_type.MatrixDataType.laws._definition 2 #9264 #9263
[attach-var-names] #9265 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9266 fuel_bool_default #1123
[mk-app] #9267 fuel_bool #1123
[mk-app] #9268 tr_bound%core!iter.range.Step. #64 #65
[mk-app] #9269 and #5769 #9268
[mk-app] #9270 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #120 #2303 #33
[mk-app] #9271 = #9270 #6282
[mk-app] #9272 => #9269 #9271
[mk-app] #9273 pattern #9270
[mk-quant] #9274 internal_vstd!std_specs.range.impl&__3.obeys_prophetic_iter_laws.?_definition 3 #9273 #9272
[attach-var-names] #9274 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9275 => #9267 #9274
[mk-app] #9276 not #9269
[mk-app] #9277 or #9276 #9271
[inst-discovered] theory-solving 0x0 basic# ; #9272
[mk-app] #9278 = #9272 #9277
[instance] 0x0 #9278
[attach-enode] #9278 0
[end-of-instance]
[mk-quant] #9278 internal_vstd!std_specs.range.impl&__3.obeys_prophetic_iter_laws.?_definition 3 #9273 #9277
[attach-var-names] #9278 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9279 not #9267
[mk-app] #9280 or #9279 #9278
[mk-app] #9281 => #9267 #9278
[inst-discovered] theory-solving 0x0 basic# ; #9281
[mk-app] #9282 = #9281 #9280
[instance] 0x0 #9282
[attach-enode] #9282 0
[end-of-instance]
[mk-app] #9281 req%vstd!std_specs.option.spec_unwrap. #64 #65 #33
[mk-app] #9282 %%global_location_label%%14
[mk-app] #9283 => #9282 #2186
[mk-app] #9284 = #9281 #9283
[mk-app] #9285 pattern #9281
[mk-quant] #9286 internal_req__vstd!std_specs.option.spec_unwrap._definition 3 #9285 #9284
[attach-var-names] #9286 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #2186
[mk-app] #9287 = #2186 #2194
[instance] 0x0 #9287
[attach-enode] #9287 0
[end-of-instance]
[mk-app] #9287 not #9282
[mk-app] #9288 or #9287 #2194
[mk-app] #9289 => #9282 #2194
[inst-discovered] theory-solving 0x0 basic# ; #9289
[mk-app] #9290 = #9289 #9288
[instance] 0x0 #9290
[attach-enode] #9290 0
[end-of-instance]
[mk-app] #9289 = #9281 #9288
[mk-quant] #9290 internal_req__vstd!std_specs.option.spec_unwrap._definition 3 #9285 #9289
[attach-var-names] #9290 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9291 fuel_bool_default #1117
[mk-app] #9292 fuel_bool #1117
[mk-app] #9293 vstd!std_specs.option.spec_unwrap.? #64 #65 #33
[mk-app] #9294 = #9293 #2153
[mk-app] #9295 pattern #9293
[mk-quant] #9296 internal_vstd!std_specs.option.spec_unwrap.?_definition 3 #9295 #9294
[attach-var-names] #9296 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9297 => #9292 #9296
[mk-app] #9298 not #9292
[mk-app] #9299 or #9298 #9296
[inst-discovered] theory-solving 0x0 basic# ; #9297
[mk-app] #9300 = #9297 #9299
[instance] 0x0 #9300
[attach-enode] #9300 0
[end-of-instance]
[mk-app] #9300 has_type #9293 #65
[mk-app] #9301 => #2117 #9300
[mk-quant] #9302 internal_vstd!std_specs.option.spec_unwrap.?_pre_post_definition 3 #9295 #9301
[attach-var-names] #9302 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9303 or #2124 #9300
[inst-discovered] theory-solving 0x0 basic# ; #9301
[mk-app] #9304 = #9301 #9303
[instance] 0x0 #9304
[attach-enode] #9304 0
[end-of-instance]
[mk-quant] #9304 internal_vstd!std_specs.option.spec_unwrap.?_pre_post_definition 3 #9295 #9303
[attach-var-names] #9304 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9305 fuel_bool_default #1124
[mk-app] #9306 %%lambda%%2 #1592 #1573 #63 #64 #65
[mk-app] #9307 %%apply%%0 #9306 #33
[mk-app] #9308 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #1592 #1573 #63 #33
[mk-app] #9309 %Poly%core!option.Option. #9308
[mk-app] #9310 core!option.Option./Some/0 #64 #65 #9309
[mk-app] #9311 = #9307 #9310
[mk-app] #9312 pattern #9307
[mk-quant] #9313 k!14672 6 #9312 #9311
[attach-var-names] #9313 (|i$| ; |Poly|) (|%%hole%%4| ; |Type|) (|%%hole%%3| ; |Dcr|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #9314 fuel_bool #1124
[mk-app] #9315 vstd!std_specs.iter.IteratorSpec.remaining.? #120 #2303 #33
[mk-app] #9316 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #64 #65 #2332 #2344
[mk-app] #9317 %I #9316
[mk-app] #9318 > #9317 #336
[mk-app] #9319 if #9318 #9317 #336
[mk-app] #9320 nClip #9319
[mk-app] #9321 I #9320
[mk-app] #9322 %%lambda%%2 #64 #65 #2332 #64 #65
[mk-app] #9323 mk_fun #9322
[mk-app] #9324 Poly%fun%1. #9323
[mk-app] #9325 vstd!seq.Seq.new.? #64 #65 #9321 #9324
[mk-app] #9326 = #9315 #9325
[mk-app] #9327 => #9269 #9326
[mk-app] #9328 pattern #9315
[mk-quant] #9329 internal_vstd!std_specs.range.impl&__3.remaining.?_definition 3 #9328 #9327
[attach-var-names] #9329 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9330 => #9314 #9329
[mk-app] #9331 <= #9317 #336
[mk-app] #9332 not #9331
[inst-discovered] theory-solving 0x0 arith# ; #9318
[mk-app] #9333 = #9318 #9332
[instance] 0x0 #9333
[attach-enode] #9333 0
[end-of-instance]
[mk-app] #9333 if #9331 #336 #9317
[mk-app] #9334 if #9332 #9317 #336
[inst-discovered] theory-solving 0x0 arith# ; #9334
[mk-app] #9335 = #9334 #9333
[instance] 0x0 #9335
[attach-enode] #9335 0
[end-of-instance]
[mk-app] #9334 nClip #9333
[mk-app] #9335 I #9334
[mk-app] #9336 vstd!seq.Seq.new.? #64 #65 #9335 #9324
[mk-app] #9337 = #9315 #9336
[mk-app] #9338 or #9276 #9337
[mk-app] #9339 => #9269 #9337
[inst-discovered] theory-solving 0x0 basic# ; #9339
[mk-app] #9340 = #9339 #9338
[instance] 0x0 #9340
[attach-enode] #9340 0
[end-of-instance]
[mk-quant] #9339 internal_vstd!std_specs.range.impl&__3.remaining.?_definition 3 #9328 #9338
[attach-var-names] #9339 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9332 not #9314
[mk-app] #9340 or #9332 #9339
[mk-app] #9341 => #9314 #9339
[inst-discovered] theory-solving 0x0 basic# ; #9341
[mk-app] #9342 = #9341 #9340
[instance] 0x0 #9342
[attach-enode] #9342 0
[end-of-instance]
[mk-app] #9341 fuel_bool_default #1125
[mk-app] #9342 fuel_bool #1125
[mk-app] #9343 vstd!std_specs.iter.IteratorSpec.decrease.? #120 #2303 #33
[mk-app] #9344 nClip #9317
[mk-app] #9345 I #9344
[mk-app] #9346 core!option.Option./Some #9345
[mk-app] #9347 Poly%core!option.Option. #9346
[mk-app] #9348 = #9343 #9347
[mk-app] #9349 => #9269 #9348
[mk-app] #9350 pattern #9343
[mk-quant] #9351 internal_vstd!std_specs.range.impl&__3.decrease.?_definition 3 #9350 #9349
[attach-var-names] #9351 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9352 => #9342 #9351
[mk-app] #9353 or #9276 #9348
[inst-discovered] theory-solving 0x0 basic# ; #9349
[mk-app] #9354 = #9349 #9353
[instance] 0x0 #9354
[attach-enode] #9354 0
[end-of-instance]
[mk-quant] #9354 internal_vstd!std_specs.range.impl&__3.decrease.?_definition 3 #9350 #9353
[attach-var-names] #9354 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9355 not #9342
[mk-app] #9356 or #9355 #9354
[mk-app] #9357 => #9342 #9354
[inst-discovered] theory-solving 0x0 basic# ; #9357
[mk-app] #9358 = #9357 #9356
[instance] 0x0 #9358
[attach-enode] #9358 0
[end-of-instance]
[mk-app] #9357 fuel_bool_default #1126
[mk-app] #9358 fuel_bool #1126
[mk-app] #9359 tr_bound%core!iter.range.Step. #1593 #263
[mk-app] #9360 and #2799 #9359
[mk-app] #9361 vstd!std_specs.iter.IteratorSpec.peek.? #120 #2319 #32 #33
[mk-app] #9362 %Poly%core!ops.range.Range. #32
[mk-app] #9363 core!ops.range.Range./Range/start #9362
[mk-app] #9364 core!ops.range.Range./Range/end #9362
[mk-app] #9365 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #1593 #263 #9363 #9364
[mk-app] #9366 %I #9365
[mk-app] #9367 <= #186 #9366
[mk-app] #9368 and #512 #9367
[mk-app] #9369 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #1593 #263 #9363 #33
[mk-app] #9370 %Poly%core!option.Option. #9369
[mk-app] #9371 core!option.Option./Some/0 #1593 #263 #9370
[mk-app] #9372 core!option.Option./Some #9371
[mk-app] #9373 if #9368 #9372 #2127
[mk-app] #9374 Poly%core!option.Option. #9373
[mk-app] #9375 = #9361 #9374
[mk-app] #9376 => #9360 #9375
[mk-app] #9377 pattern #9361
[mk-quant] #9378 internal_vstd!std_specs.range.impl&__3.peek.?_definition 4 #9377 #9376
[attach-var-names] #9378 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9379 => #9358 #9378
[attach-meaning] #365 arith (- 1)
[mk-app] #9380 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #9380 = #512 #516
[instance] 0x0 #9380
[attach-enode] #9380 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9380 * #365 #9366
[mk-app] #9381 + #186 #9380
[mk-app] #9382 <= #9381 #336
[inst-discovered] theory-solving 0x0 arith# ; #9367
[mk-app] #9383 = #9367 #9382
[instance] 0x0 #9383
[attach-enode] #9383 0
[end-of-instance]
[mk-app] #9383 and #516 #9382
[mk-app] #9384 if #9383 #9372 #2127
[mk-app] #9385 Poly%core!option.Option. #9384
[mk-app] #9386 = #9361 #9385
[mk-app] #9387 not #9360
[mk-app] #9388 or #9387 #9386
[mk-app] #9389 => #9360 #9386
[inst-discovered] theory-solving 0x0 basic# ; #9389
[mk-app] #9390 = #9389 #9388
[instance] 0x0 #9390
[attach-enode] #9390 0
[end-of-instance]
[mk-quant] #9389 internal_vstd!std_specs.range.impl&__3.peek.?_definition 4 #9377 #9388
[attach-var-names] #9389 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9390 not #9358
[mk-app] #9391 or #9390 #9389
[mk-app] #9392 => #9358 #9389
[inst-discovered] theory-solving 0x0 basic# ; #9392
[mk-app] #9393 = #9392 #9391
[instance] 0x0 #9393
[attach-enode] #9393 0
[end-of-instance]
[mk-app] #9392 ens%core!iter.range.impl&%6.next. #1593 #263 #32 #33
[mk-app] #9393 ens%core!iter.traits.iterator.Iterator.next. #120 #2319 #32 #33
[mk-app] #9394 tuple%2./tuple%2 #40 #33
[mk-app] #9395 vstd!std_specs.range.spec_range_next.? #1593 #263 #5699
[mk-app] #9396 = #9394 #9395
[mk-app] #9397 and #9393 #9396
[mk-app] #9398 = #9392 #9397
[mk-app] #9399 pattern #9392
[mk-quant] #9400 internal_ens__core!iter.range.impl&__6.next._definition 4 #9399 #9398
[attach-var-names] #9400 (|r!| ; |Poly|) (|range!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9401 has_type #63 #5162
[mk-app] #9402 has_type #43 #2129
[mk-app] #9403 and #9401 #9402
[mk-app] #9404 closure_ens #5160 #5143 #5162 #6328 #63 #43
[mk-app] #9405 tuple%2./tuple%2 #8143 #43
[mk-app] #9406 vstd!std_specs.range.spec_range_next.? #44 #45 #8145
[mk-app] #9407 = #9405 #9406
[mk-app] #9408 => #9404 #9407
[mk-app] #9409 => #9403 #9408
[mk-app] #9410 pattern #9404
[mk-quant] #9411 user_core__iter__range__impl&%6__next_0 4 #9410 #9409
[attach-var-names] #9411 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|r$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #9412 not #9404
[mk-app] #9413 or #9412 #9407
[inst-discovered] theory-solving 0x0 basic# ; #9408
[mk-app] #9414 = #9408 #9413
[instance] 0x0 #9414
[attach-enode] #9414 0
[end-of-instance]
[mk-app] #9414 not #9403
[mk-app] #9415 or #9414 #9412 #9407
[mk-app] #9416 => #9403 #9413
[inst-discovered] theory-solving 0x0 basic# ; #9416
[mk-app] #9417 = #9416 #9415
[instance] 0x0 #9417
[attach-enode] #9417 0
[end-of-instance]
[mk-quant] #9413 user_core__iter__range__impl&%6__next_0 4 #9410 #9415
[attach-var-names] #9413 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|r$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #9416 tr_bound%core!iter.traits.iterator.Iterator. #120 #5001
[mk-app] #9417 => #5000 #9416
[mk-app] #9418 pattern #9416
[mk-quant] #9419 internal_core__iter__range__impl&__6_trait_impl_definition 2 #9418 #9417
[attach-var-names] #9419 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9420 or #5007 #9416
[inst-discovered] theory-solving 0x0 basic# ; #9417
[mk-app] #9421 = #9417 #9420
[instance] 0x0 #9421
[attach-enode] #9421 0
[end-of-instance]
[mk-quant] #9421 internal_core__iter__range__impl&__6_trait_impl_definition 2 #9418 #9420
[attach-var-names] #9421 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9422 tr_bound%vstd!std_specs.iter.IteratorSpec. #120 #5001
[mk-app] #9423 => #5000 #9422
[mk-app] #9424 pattern #9422
[mk-quant] #9425 internal_vstd__std_specs__range__impl&__3_trait_impl_definition 2 #9424 #9423
[attach-var-names] #9425 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9426 or #5007 #9422
[inst-discovered] theory-solving 0x0 basic# ; #9423
[mk-app] #9427 = #9423 #9426
[instance] 0x0 #9427
[attach-enode] #9427 0
[end-of-instance]
[mk-quant] #9427 internal_vstd__std_specs__range__impl&__3_trait_impl_definition 2 #9424 #9426
[attach-var-names] #9427 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9428 tr_bound%core!iter.traits.double_ended.DoubleEndedIterator. #120 #5001
[mk-app] #9429 => #5000 #9428
[mk-app] #9430 pattern #9428
[mk-quant] #9431 internal_core__iter__range__impl&__7_trait_impl_definition 2 #9430 #9429
[attach-var-names] #9431 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9432 or #5007 #9428
[inst-discovered] theory-solving 0x0 basic# ; #9429
[mk-app] #9433 = #9429 #9432
[instance] 0x0 #9433
[attach-enode] #9433 0
[end-of-instance]
[mk-quant] #9433 internal_core__iter__range__impl&__7_trait_impl_definition 2 #9430 #9432
[attach-var-names] #9433 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9434 => #2903 #2947
[mk-quant] #9435 internal_vstd__std_specs__iter__impl&__13_trait_impl_definition 2 #2950 #9434
[attach-var-names] #9435 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #9436 or #2907 #2947
[inst-discovered] theory-solving 0x0 basic# ; #9434
[mk-app] #9437 = #9434 #9436
[instance] 0x0 #9437
[attach-enode] #9437 0
[end-of-instance]
[mk-quant] #9437 internal_vstd__std_specs__iter__impl&__13_trait_impl_definition 2 #2950 #9436
[attach-var-names] #9437 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #9438 fuel_bool_default #1127
[mk-app] #9439 fuel_bool #1127
[mk-app] #9440 TYPE%core!ops.range.RangeInclusive. #64 #65
[mk-app] #9441 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #120 #9440 #33
[mk-app] #9442 = #9441 #6282
[mk-app] #9443 => #9269 #9442
[mk-app] #9444 pattern #9441
[mk-quant] #9445 internal_vstd!std_specs.range.impl&__4.obeys_prophetic_iter_laws.?_definition 3 #9444 #9443
[attach-var-names] #9445 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9446 => #9439 #9445
[mk-app] #9447 or #9276 #9442
[inst-discovered] theory-solving 0x0 basic# ; #9443
[mk-app] #9448 = #9443 #9447
[instance] 0x0 #9448
[attach-enode] #9448 0
[end-of-instance]
[mk-quant] #9448 internal_vstd!std_specs.range.impl&__4.obeys_prophetic_iter_laws.?_definition 3 #9444 #9447
[attach-var-names] #9448 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9449 not #9439
[mk-app] #9450 or #9449 #9448
[mk-app] #9451 => #9439 #9448
[inst-discovered] theory-solving 0x0 basic# ; #9451
[mk-app] #9452 = #9451 #9450
[instance] 0x0 #9452
[attach-enode] #9452 0
[end-of-instance]
[mk-app] #9451 tr_bound%vstd!view.View. #120 #3625
[mk-app] #9452 => #2788 #9451
[mk-app] #9453 pattern #9451
[mk-quant] #9454 internal_vstd__std_specs__range__impl&__2_trait_impl_definition 2 #9453 #9452
[attach-var-names] #9454 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #9455 or #3429 #9451
[inst-discovered] theory-solving 0x0 basic# ; #9452
[mk-app] #9456 = #9452 #9455
[instance] 0x0 #9456
[attach-enode] #9456 0
[end-of-instance]
[mk-quant] #9456 internal_vstd__std_specs__range__impl&__2_trait_impl_definition 2 #9453 #9455
[attach-var-names] #9456 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #9457 fuel_bool_default #1128
[mk-app] #9458 fuel_bool #1128
[mk-app] #9459 vstd!std_specs.iter.IteratorSpec.remaining.? #120 #9440 #33
[mk-app] #9460 vstd!view.View.view.? #120 #9440 #33
[mk-app] #9461 %Poly%vstd!std_specs.range.RangeInclusiveView. #9460
[mk-app] #9462 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/start #9461
[mk-app] #9463 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/end #9461
[mk-app] #9464 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #64 #65 #9462 #9463
[mk-app] #9465 %I #9464
[mk-app] #9466 Add #9465 #291
[mk-app] #9467 nClip #9466
[mk-app] #9468 I #9467
[mk-app] #9469 %%lambda%%2 #64 #65 #9462 #64 #65
[mk-app] #9470 mk_fun #9469
[mk-app] #9471 Poly%fun%1. #9470
[mk-app] #9472 vstd!seq.Seq.new.? #64 #65 #9468 #9471
[mk-app] #9473 = #9459 #9472
[mk-app] #9474 => #9269 #9473
[mk-app] #9475 pattern #9459
[mk-quant] #9476 internal_vstd!std_specs.range.impl&__4.remaining.?_definition 3 #9475 #9474
[attach-var-names] #9476 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9477 => #9458 #9476
[mk-app] #9478 or #9276 #9473
[inst-discovered] theory-solving 0x0 basic# ; #9474
[mk-app] #9479 = #9474 #9478
[instance] 0x0 #9479
[attach-enode] #9479 0
[end-of-instance]
[mk-quant] #9479 internal_vstd!std_specs.range.impl&__4.remaining.?_definition 3 #9475 #9478
[attach-var-names] #9479 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9480 not #9458
[mk-app] #9481 or #9480 #9479
[mk-app] #9482 => #9458 #9479
[inst-discovered] theory-solving 0x0 basic# ; #9482
[mk-app] #9483 = #9482 #9481
[instance] 0x0 #9483
[attach-enode] #9483 0
[end-of-instance]
[mk-app] #9482 fuel_bool_default #1129
[mk-app] #9483 fuel_bool #1129
[mk-app] #9484 vstd!std_specs.iter.IteratorSpec.decrease.? #120 #9440 #33
[mk-app] #9485 core!option.Option./Some #9468
[mk-app] #9486 Poly%core!option.Option. #9485
[mk-app] #9487 = #9484 #9486
[mk-app] #9488 => #9269 #9487
[mk-app] #9489 pattern #9484
[mk-quant] #9490 internal_vstd!std_specs.range.impl&__4.decrease.?_definition 3 #9489 #9488
[attach-var-names] #9490 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9491 => #9483 #9490
[mk-app] #9492 or #9276 #9487
[inst-discovered] theory-solving 0x0 basic# ; #9488
[mk-app] #9493 = #9488 #9492
[instance] 0x0 #9493
[attach-enode] #9493 0
[end-of-instance]
[mk-quant] #9493 internal_vstd!std_specs.range.impl&__4.decrease.?_definition 3 #9489 #9492
[attach-var-names] #9493 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9494 not #9483
[mk-app] #9495 or #9494 #9493
[mk-app] #9496 => #9483 #9493
[inst-discovered] theory-solving 0x0 basic# ; #9496
[mk-app] #9497 = #9496 #9495
[instance] 0x0 #9497
[attach-enode] #9497 0
[end-of-instance]
[mk-app] #9496 fuel_bool_default #1130
[mk-app] #9497 fuel_bool #1130
[mk-app] #9498 TYPE%core!ops.range.RangeInclusive. #1593 #263
[mk-app] #9499 vstd!std_specs.iter.IteratorSpec.peek.? #120 #9498 #32 #33
[mk-app] #9500 vstd!view.View.view.? #120 #9498 #32
[mk-app] #9501 %Poly%vstd!std_specs.range.RangeInclusiveView. #9500
[mk-app] #9502 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/start #9501
[mk-app] #9503 vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView/end #9501
[mk-app] #9504 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #1593 #263 #9502 #9503
[mk-app] #9505 %I #9504
[mk-app] #9506 Add #9505 #291
[mk-app] #9507 <= #186 #9506
[mk-app] #9508 and #512 #9507
[mk-app] #9509 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #1593 #263 #9502 #33
[mk-app] #9510 %Poly%core!option.Option. #9509
[mk-app] #9511 core!option.Option./Some/0 #1593 #263 #9510
[mk-app] #9512 core!option.Option./Some #9511
[mk-app] #9513 if #9508 #9512 #2127
[mk-app] #9514 Poly%core!option.Option. #9513
[mk-app] #9515 = #9499 #9514
[mk-app] #9516 => #9360 #9515
[mk-app] #9517 pattern #9499
[mk-quant] #9518 internal_vstd!std_specs.range.impl&__4.peek.?_definition 4 #9517 #9516
[attach-var-names] #9518 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9519 => #9497 #9518
[attach-meaning] #365 arith (- 1)
[mk-app] #9520 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #9520 = #512 #516
[instance] 0x0 #9520
[attach-enode] #9520 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9520 * #365 #9506
[mk-app] #9521 + #186 #9520
[mk-app] #9522 <= #9521 #336
[inst-discovered] theory-solving 0x0 arith# ; #9507
[mk-app] #9523 = #9507 #9522
[instance] 0x0 #9523
[attach-enode] #9523 0
[end-of-instance]
[mk-app] #9523 and #516 #9522
[mk-app] #9524 if #9523 #9512 #2127
[mk-app] #9525 Poly%core!option.Option. #9524
[mk-app] #9526 = #9499 #9525
[mk-app] #9527 or #9387 #9526
[mk-app] #9528 => #9360 #9526
[inst-discovered] theory-solving 0x0 basic# ; #9528
[mk-app] #9529 = #9528 #9527
[instance] 0x0 #9529
[attach-enode] #9529 0
[end-of-instance]
[mk-quant] #9528 internal_vstd!std_specs.range.impl&__4.peek.?_definition 4 #9517 #9527
[attach-var-names] #9528 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9529 not #9497
[mk-app] #9530 or #9529 #9528
[mk-app] #9531 => #9497 #9528
[inst-discovered] theory-solving 0x0 basic# ; #9531
[mk-app] #9532 = #9531 #9530
[instance] 0x0 #9532
[attach-enode] #9532 0
[end-of-instance]
[mk-app] #9531 tr_bound%core!iter.traits.iterator.Iterator. #120 #3625
[mk-app] #9532 => #5000 #9531
[mk-app] #9533 pattern #9531
[mk-quant] #9534 internal_core__iter__range__impl&__15_trait_impl_definition 2 #9533 #9532
[attach-var-names] #9534 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9535 or #5007 #9531
[inst-discovered] theory-solving 0x0 basic# ; #9532
[mk-app] #9536 = #9532 #9535
[instance] 0x0 #9536
[attach-enode] #9536 0
[end-of-instance]
[mk-quant] #9536 internal_core__iter__range__impl&__15_trait_impl_definition 2 #9533 #9535
[attach-var-names] #9536 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9537 tr_bound%vstd!std_specs.iter.IteratorSpec. #120 #3625
[mk-app] #9538 => #5000 #9537
[mk-app] #9539 pattern #9537
[mk-quant] #9540 internal_vstd__std_specs__range__impl&__4_trait_impl_definition 2 #9539 #9538
[attach-var-names] #9540 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9541 or #5007 #9537
[inst-discovered] theory-solving 0x0 basic# ; #9538
[mk-app] #9542 = #9538 #9541
[instance] 0x0 #9542
[attach-enode] #9542 0
[end-of-instance]
[mk-quant] #9542 internal_vstd__std_specs__range__impl&__4_trait_impl_definition 2 #9539 #9541
[attach-var-names] #9542 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9543 tr_bound%core!iter.traits.double_ended.DoubleEndedIterator. #120 #3625
[mk-app] #9544 => #5000 #9543
[mk-app] #9545 pattern #9543
[mk-quant] #9546 internal_core__iter__range__impl&__16_trait_impl_definition 2 #9545 #9544
[attach-var-names] #9546 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9547 or #5007 #9543
[inst-discovered] theory-solving 0x0 basic# ; #9544
[mk-app] #9548 = #9544 #9547
[instance] 0x0 #9548
[attach-enode] #9548 0
[end-of-instance]
[mk-quant] #9548 internal_core__iter__range__impl&__16_trait_impl_definition 2 #9545 #9547
[attach-var-names] #9548 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-var] #9549 4
[mk-app] #9550 ens%g1!matrix.data_type.MatrixDataType.recip. #9549 #1593 #263 #32 #33
[mk-app] #9551 = #9032 #602
[mk-app] #9552 not #9551
[mk-app] #9553 RMul #9034 #9032
[mk-app] #9554 = #9553 #9119
[mk-app] #9555 => #9552 #9554
[mk-app] #9556 and #2315 #9555
[mk-app] #9557 = #9550 #9556
[mk-app] #9558 pattern #9550
[mk-quant] #9559 internal_ens__g1!matrix.data_type.MatrixDataType.recip._definition 5 #9558 #9557
[attach-var-names] #9559 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #9560 or #9551 #9554
[inst-discovered] theory-solving 0x0 basic# ; #9555
[mk-app] #9561 = #9555 #9560
[instance] 0x0 #9561
[attach-enode] #9561 0
[end-of-instance]
[mk-app] #9561 and #2315 #9560
[mk-app] #9562 = #9550 #9561
[mk-quant] #9563 internal_ens__g1!matrix.data_type.MatrixDataType.recip._definition 5 #9558 #9562
[attach-var-names] #9563 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #9564 ens%g1!matrix.data_type.MatrixDataType.square_root. #1593 #263 #32 #33
[mk-app] #9565 >= #9032 #602
[mk-app] #9566 >= #9034 #602
[mk-app] #9567 RMul #9034 #9034
[mk-app] #9568 = #9567 #9032
[mk-app] #9569 and #9566 #9568
[mk-app] #9570 => #9565 #9569
[mk-app] #9571 and #2315 #9570
[mk-app] #9572 = #9564 #9571
[mk-app] #9573 pattern #9564
[mk-quant] #9574 internal_ens__g1!matrix.data_type.MatrixDataType.square_root._definition 4 #9573 #9572
[attach-var-names] #9574 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9575 not #9565
[mk-app] #9576 or #9575 #9569
[inst-discovered] theory-solving 0x0 basic# ; #9570
[mk-app] #9577 = #9570 #9576
[instance] 0x0 #9577
[attach-enode] #9577 0
[end-of-instance]
[mk-app] #9577 and #2315 #9576
[mk-app] #9578 = #9564 #9577
[mk-quant] #9579 internal_ens__g1!matrix.data_type.MatrixDataType.square_root._definition 4 #9573 #9578
[attach-var-names] #9579 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-var] #9580 8
[mk-var] #9581 7
[mk-app] #9582 has_type #33 #9581
[mk-app] #9583 g1!matrix.row_major.RowMajorSequentialData.data.? #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #33
[mk-app] #9584 has_type #9583 #5177
[mk-app] #9585 => #9582 #9584
[mk-app] #9586 pattern #9583
[mk-quant] #9587 internal_g1!matrix.row_major.RowMajorSequentialData.data.?_pre_post_definition 9 #9586 #9585
[attach-var-names] #9587 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9588 not #9582
[mk-app] #9589 or #9588 #9584
[inst-discovered] theory-solving 0x0 basic# ; #9585
[mk-app] #9590 = #9585 #9589
[instance] 0x0 #9590
[attach-enode] #9590 0
[end-of-instance]
[mk-quant] #9590 internal_g1!matrix.row_major.RowMajorSequentialData.data.?_pre_post_definition 9 #9586 #9589
[attach-var-names] #9590 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9591 ens%g1!matrix.row_major.RowMajorSequentialData.buffer_bound. #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #33
[mk-app] #9592 vstd!seq.Seq.len.? #64 #65 #9583
[mk-app] #9593 <= #9592 #7152
[mk-app] #9594 = #9591 #9593
[mk-app] #9595 pattern #9591
[mk-quant] #9596 internal_ens__g1!matrix.row_major.RowMajorSequentialData.buffer_bound._definition 9 #9595 #9594
[attach-var-names] #9596 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #9597 * #365 #291
[mk-app] #9598 + #7151 #9597
[inst-discovered] theory-solving 0x0 arith# ; #7152
[mk-app] #9599 = #7152 #9598
[instance] 0x0 #9599
[attach-enode] #9599 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9597
[mk-app] #9599 = #9597 #365
[instance] 0x0 #9599
[attach-enode] #9599 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9599 + #365 #7151
[mk-app] #9600 + #7151 #365
[inst-discovered] theory-solving 0x0 arith# ; #9600
[mk-app] #9601 = #9600 #9599
[instance] 0x0 #9601
[attach-enode] #9601 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[attach-meaning] #365 arith (- 1)
[mk-app] #9600 + #7166 #9592
[attach-meaning] #365 arith (- 1)
[mk-app] #9601 * #365 #9592
[mk-app] #9602 + #7151 #9601
[mk-app] #9600 >= #9602 #291
[mk-app] #9603 <= #9592 #9599
[inst-discovered] theory-solving 0x0 arith# ; #9603
[mk-app] #9604 = #9603 #9600
[instance] 0x0 #9604
[attach-enode] #9604 0
[end-of-instance]
[mk-app] #9603 = #9591 #9600
[mk-quant] #9604 internal_ens__g1!matrix.row_major.RowMajorSequentialData.buffer_bound._definition 9 #9595 #9603
[attach-var-names] #9604 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-var] #9599 9
[mk-var] #9597 8
[mk-app] #9598 ens%g1!matrix.row_major.RowMajorSequentialData.as_slice. #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #9605 vstd!view.View.view.? #1542 #4750 #33
[mk-app] #9606 g1!matrix.row_major.RowMajorSequentialData.data.? #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32
[mk-app] #9607 = #9605 #9606
[mk-app] #9608 vstd!seq.Seq.len.? #1593 #263 #9605
[mk-app] #9609 <= #9608 #7152
[mk-app] #9610 and #5846 #9607 #9609
[mk-app] #9611 = #9598 #9610
[mk-app] #9612 pattern #9598
[mk-quant] #9613 internal_ens__g1!matrix.row_major.RowMajorSequentialData.as_slice._definition 10 #9612 #9611
[attach-var-names] #9613 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #9614 * #365 #291
[mk-app] #9615 + #7151 #9614
[inst-discovered] theory-solving 0x0 arith# ; #7152
[mk-app] #9616 = #7152 #9615
[instance] 0x0 #9616
[attach-enode] #9616 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9614
[mk-app] #9616 = #9614 #365
[instance] 0x0 #9616
[attach-enode] #9616 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9616 + #365 #7151
[mk-app] #9617 + #7151 #365
[inst-discovered] theory-solving 0x0 arith# ; #9617
[mk-app] #9618 = #9617 #9616
[instance] 0x0 #9618
[attach-enode] #9618 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[attach-meaning] #365 arith (- 1)
[mk-app] #9617 + #7166 #9608
[attach-meaning] #365 arith (- 1)
[mk-app] #9618 * #365 #9608
[mk-app] #9619 + #7151 #9618
[mk-app] #9617 >= #9619 #291
[mk-app] #9620 <= #9608 #9616
[inst-discovered] theory-solving 0x0 arith# ; #9620
[mk-app] #9621 = #9620 #9617
[instance] 0x0 #9621
[attach-enode] #9621 0
[end-of-instance]
[mk-app] #9620 and #5846 #9607 #9617
[mk-app] #9621 = #9598 #9620
[mk-quant] #9622 internal_ens__g1!matrix.row_major.RowMajorSequentialData.as_slice._definition 10 #9612 #9621
[attach-var-names] #9622 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9616 req%g1!matrix.row_major.RowMajorSequentialData.len. #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #33
[mk-app] #9614 %%global_location_label%%15
[mk-app] #9615 const_int #1616
[mk-app] #9623 Mul #9615 #6130
[mk-app] #9624 <= #9623 #7152
[mk-app] #9625 => #9614 #9624
[mk-app] #9626 = #9616 #9625
[mk-app] #9627 pattern #9616
[mk-quant] #9628 internal_req__g1!matrix.row_major.RowMajorSequentialData.len._definition 9 #9627 #9626
[attach-var-names] #9628 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #9629 * #365 #291
[mk-app] #9630 + #7151 #9629
[inst-discovered] theory-solving 0x0 arith# ; #7152
[mk-app] #9631 = #7152 #9630
[instance] 0x0 #9631
[attach-enode] #9631 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9629
[mk-app] #9631 = #9629 #365
[instance] 0x0 #9631
[attach-enode] #9631 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9631 + #365 #7151
[mk-app] #9632 + #7151 #365
[inst-discovered] theory-solving 0x0 arith# ; #9632
[mk-app] #9633 = #9632 #9631
[instance] 0x0 #9633
[attach-enode] #9633 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[attach-meaning] #365 arith (- 1)
[mk-app] #9632 + #7166 #9623
[attach-meaning] #365 arith (- 1)
[mk-app] #9633 * #365 #9623
[mk-app] #9634 + #7151 #9633
[mk-app] #9632 >= #9634 #291
[mk-app] #9635 <= #9623 #9631
[inst-discovered] theory-solving 0x0 arith# ; #9635
[mk-app] #9636 = #9635 #9632
[instance] 0x0 #9636
[attach-enode] #9636 0
[end-of-instance]
[mk-app] #9635 not #9614
[mk-app] #9636 or #9635 #9632
[mk-app] #9637 => #9614 #9632
[inst-discovered] theory-solving 0x0 basic# ; #9637
[mk-app] #9638 = #9637 #9636
[instance] 0x0 #9638
[attach-enode] #9638 0
[end-of-instance]
[mk-app] #9637 = #9616 #9636
[mk-quant] #9638 internal_req__g1!matrix.row_major.RowMajorSequentialData.len._definition 9 #9627 #9637
[attach-var-names] #9638 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-var] #9631 10
[mk-app] #9629 ens%g1!matrix.row_major.RowMajorSequentialData.len. #9631 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #9630 const_int #1621
[mk-app] #9639 Mul #9630 #3201
[mk-app] #9640 = #186 #9639
[mk-app] #9641 and #204 #9640
[mk-app] #9642 = #9629 #9641
[mk-app] #9643 pattern #9629
[mk-quant] #9644 internal_ens__g1!matrix.row_major.RowMajorSequentialData.len._definition 11 #9643 #9642
[attach-var-names] #9644 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #9645 ens%core!slice.impl&%0.len. #1593 #263 #32 #122
[mk-app] #9646 = #122 #5931
[mk-app] #9647 and #469 #9646
[mk-app] #9648 = #9645 #9647
[mk-app] #9649 pattern #9645
[mk-quant] #9650 internal_ens__core!slice.impl&__0.len._definition 4 #9649 #9648
[attach-var-names] #9650 (|%return!| ; |Int|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #9651 10
[mk-var] #9652 9
[mk-app] #9653 req%g1!matrix.row_major.RowMajorSequentialData.get_at. #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #9654 %%global_location_label%%16
[mk-app] #9655 const_int #9581
[mk-app] #9656 < #676 #9655
[mk-app] #9657 => #9654 #9656
[mk-app] #9658 %%global_location_label%%17
[mk-app] #9659 < #186 #9615
[mk-app] #9660 => #9658 #9659
[mk-app] #9661 %%global_location_label%%18
[mk-app] #9662 Mul #9655 #9615
[mk-app] #9663 g1!matrix.row_major.RowMajorSequentialData.data.? #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #43
[mk-app] #9664 vstd!seq.Seq.len.? #1560 #1561 #9663
[mk-app] #9665 <= #9662 #9664
[mk-app] #9666 => #9661 #9665
[mk-app] #9667 and #9657 #9660 #9666
[mk-app] #9668 = #9653 #9667
[mk-app] #9669 pattern #9653
[mk-quant] #9670 internal_req__g1!matrix.row_major.RowMajorSequentialData.get_at._definition 11 #9669 #9668
[attach-var-names] #9670 (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9671 <= #9655 #676
[mk-app] #9672 not #9671
[inst-discovered] theory-solving 0x0 arith# ; #9656
[mk-app] #9673 = #9656 #9672
[instance] 0x0 #9673
[attach-enode] #9673 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9673 + #5268 #9655
[attach-meaning] #365 arith (- 1)
[mk-app] #9674 * #365 #9655
[mk-app] #9675 + #676 #9674
[mk-app] #9673 >= #9675 #336
[inst-discovered] theory-solving 0x0 arith# ; #9671
[mk-app] #9676 = #9671 #9673
[instance] 0x0 #9676
[attach-enode] #9676 0
[end-of-instance]
[mk-app] #9676 not #9673
[mk-app] #9677 not #9654
[mk-app] #9678 or #9677 #9676
[mk-app] #9679 => #9654 #9676
[inst-discovered] theory-solving 0x0 basic# ; #9679
[mk-app] #9680 = #9679 #9678
[instance] 0x0 #9680
[attach-enode] #9680 0
[end-of-instance]
[mk-app] #9679 <= #9615 #186
[mk-app] #9680 not #9679
[inst-discovered] theory-solving 0x0 arith# ; #9659
[mk-app] #9681 = #9659 #9680
[instance] 0x0 #9681
[attach-enode] #9681 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9681 * #365 #186
[mk-app] #9682 + #9681 #9615
[attach-meaning] #365 arith (- 1)
[mk-app] #9683 * #365 #9615
[mk-app] #9684 + #186 #9683
[mk-app] #9681 >= #9684 #336
[inst-discovered] theory-solving 0x0 arith# ; #9679
[mk-app] #9682 = #9679 #9681
[instance] 0x0 #9682
[attach-enode] #9682 0
[end-of-instance]
[mk-app] #9682 not #9681
[mk-app] #9685 not #9658
[mk-app] #9686 or #9685 #9682
[mk-app] #9687 => #9658 #9682
[inst-discovered] theory-solving 0x0 basic# ; #9687
[mk-app] #9688 = #9687 #9686
[instance] 0x0 #9688
[attach-enode] #9688 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9687 * #365 #9664
[mk-app] #9688 + #9662 #9687
[mk-app] #9689 <= #9688 #336
[inst-discovered] theory-solving 0x0 arith# ; #9665
[mk-app] #9690 = #9665 #9689
[instance] 0x0 #9690
[attach-enode] #9690 0
[end-of-instance]
[mk-app] #9690 not #9661
[mk-app] #9691 or #9690 #9689
[mk-app] #9692 => #9661 #9689
[inst-discovered] theory-solving 0x0 basic# ; #9692
[mk-app] #9693 = #9692 #9691
[instance] 0x0 #9693
[attach-enode] #9693 0
[end-of-instance]
[mk-app] #9692 and #9678 #9686 #9691
[mk-app] #9693 = #9653 #9692
[mk-quant] #9694 internal_req__g1!matrix.row_major.RowMajorSequentialData.get_at._definition 11 #9669 #9693
[attach-var-names] #9694 (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-var] #9679 12
[mk-var] #9680 11
[mk-var] #9671 10
[mk-app] #9672 ens%g1!matrix.row_major.RowMajorSequentialData.get_at. #9679 #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #63 #43 #32 #33
[mk-app] #9695 g1!matrix.row_major.RowMajorSequentialData.data.? #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #63
[mk-app] #9696 I #9630
[mk-app] #9697 g1!g.ix.? #43 #32 #9696
[mk-app] #9698 I #9697
[mk-app] #9699 vstd!seq.Seq.index.? #1592 #1573 #9695 #9698
[mk-app] #9700 = #33 #9699
[mk-app] #9701 and #1574 #9700
[mk-app] #9702 = #9672 #9701
[mk-app] #9703 pattern #9672
[mk-quant] #9704 internal_ens__g1!matrix.row_major.RowMajorSequentialData.get_at._definition 13 #9703 #9702
[attach-var-names] #9704 (|r!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #9705 ens%g1!matrix.traits.Matrix.index_agrees. #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #33
[mk-app] #9706 g1!g.Index.index_req.? #9599 #9597 #120 #203 #32 #33
[mk-app] #9707 %B #9706
[mk-app] #9708 vstd!seq.Seq.len.? #1593 #263 #9606
[mk-app] #9709 < #186 #9708
[mk-app] #9710 = #9707 #9709
[mk-app] #9711 => #204 #9710
[mk-app] #9712 pattern #9706
[mk-quant] #9713 user_g1__matrix__traits__Matrix__index_agrees_0 1 #9712 #9711
[attach-var-names] #9713 (|i$| ; |Poly|)
[mk-app] #9714 g1!g.Index.index_val.? #9599 #9597 #120 #203 #32 #33
[mk-app] #9715 vstd!seq.Seq.index.? #1593 #263 #9606 #33
[mk-app] #9716 = #9714 #9715
[mk-app] #9717 => #9709 #9716
[mk-app] #9718 => #204 #9717
[mk-app] #9719 pattern #9714
[mk-quant] #9720 user_g1__matrix__traits__Matrix__index_agrees_1 1 #9719 #9718
[attach-var-names] #9720 (|i$| ; |Poly|)
[mk-app] #9721 and #9713 #9720
[mk-app] #9722 = #9705 #9721
[mk-app] #9723 pattern #9705
[mk-quant] #9724 internal_ens__g1!matrix.traits.Matrix.index_agrees._definition 9 #9723 #9722
[attach-var-names] #9724 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9725 <= #9708 #186
[mk-app] #9726 not #9725
[inst-discovered] theory-solving 0x0 arith# ; #9709
[mk-app] #9727 = #9709 #9726
[instance] 0x0 #9727
[attach-enode] #9727 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9727 * #365 #186
[mk-app] #9728 + #9727 #9708
[attach-meaning] #365 arith (- 1)
[mk-app] #9729 * #365 #9708
[mk-app] #9730 + #186 #9729
[mk-app] #9727 >= #9730 #336
[inst-discovered] theory-solving 0x0 arith# ; #9725
[mk-app] #9728 = #9725 #9727
[instance] 0x0 #9728
[attach-enode] #9728 0
[end-of-instance]
[mk-app] #9728 not #9727
[mk-app] #9731 = #9727 #9707
[mk-app] #9732 not #9731
[mk-app] #9733 = #9707 #9728
[inst-discovered] theory-solving 0x0 basic# ; #9733
[mk-app] #9734 = #9733 #9732
[instance] 0x0 #9734
[attach-enode] #9734 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9732
[mk-app] #9733 = #9732 #9732
[instance] 0x0 #9733
[attach-enode] #9733 0
[end-of-instance]
[mk-app] #9733 or #208 #9732
[mk-app] #9734 => #204 #9732
[inst-discovered] theory-solving 0x0 basic# ; #9734
[mk-app] #9735 = #9734 #9733
[instance] 0x0 #9735
[attach-enode] #9735 0
[end-of-instance]
[mk-quant] #9734 user_g1__matrix__traits__Matrix__index_agrees_0 1 #9712 #9733
[attach-var-names] #9734 (|i$| ; |Poly|)
[mk-app] #9728 <= #9708 #186
[mk-app] #9725 not #9728
[inst-discovered] theory-solving 0x0 arith# ; #9709
[mk-app] #9726 = #9709 #9725
[instance] 0x0 #9726
[attach-enode] #9726 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9726 * #365 #186
[mk-app] #9735 + #9726 #9708
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9728
[mk-app] #9726 = #9728 #9727
[instance] 0x0 #9726
[attach-enode] #9726 0
[end-of-instance]
[mk-app] #9726 not #9727
[mk-app] #9735 or #9727 #9716
[mk-app] #9736 => #9726 #9716
[inst-discovered] theory-solving 0x0 basic# ; #9736
[mk-app] #9737 = #9736 #9735
[instance] 0x0 #9737
[attach-enode] #9737 0
[end-of-instance]
[mk-app] #9736 or #208 #9727 #9716
[mk-app] #9737 => #204 #9735
[inst-discovered] theory-solving 0x0 basic# ; #9737
[mk-app] #9738 = #9737 #9736
[instance] 0x0 #9738
[attach-enode] #9738 0
[end-of-instance]
[mk-quant] #9735 user_g1__matrix__traits__Matrix__index_agrees_1 1 #9719 #9736
[attach-var-names] #9735 (|i$| ; |Poly|)
[mk-app] #9726 and #9734 #9735
[mk-app] #9728 = #9705 #9726
[mk-quant] #9725 internal_ens__g1!matrix.traits.Matrix.index_agrees._definition 9 #9723 #9728
[attach-var-names] #9725 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9737 ens%g1!matrix.traits.Matrix.rows. #9631 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #9738 = #186 #9630
[mk-app] #9739 and #204 #9738
[mk-app] #9740 = #9737 #9739
[mk-app] #9741 pattern #9737
[mk-quant] #9742 internal_ens__g1!matrix.traits.Matrix.rows._definition 11 #9741 #9740
[attach-var-names] #9742 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #9743 ens%g1!matrix.traits.Matrix.cols. #9631 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #9744 = #186 #3201
[mk-app] #9745 and #204 #9744
[mk-app] #9746 = #9743 #9745
[mk-app] #9747 pattern #9743
[mk-quant] #9748 internal_ens__g1!matrix.traits.Matrix.cols._definition 11 #9747 #9746
[attach-var-names] #9748 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #9749 has_type #32 #1621
[mk-app] #9750 and #9749 #1574
[mk-app] #9751 vstd!pervasive.FnWithRequiresEnsures.requires.? #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #9752 has_type #9751 #135
[mk-app] #9753 => #9750 #9752
[mk-app] #9754 pattern #9751
[mk-quant] #9755 internal_vstd!pervasive.FnWithRequiresEnsures.requires.?_pre_post_definition 8 #9754 #9753
[attach-var-names] #9755 (|args!| ; |Poly|) (|self!| ; |Poly|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9756 not #9750
[mk-app] #9757 or #9756 #9752
[inst-discovered] theory-solving 0x0 basic# ; #9753
[mk-app] #9758 = #9753 #9757
[instance] 0x0 #9758
[attach-enode] #9758 0
[end-of-instance]
[mk-quant] #9758 internal_vstd!pervasive.FnWithRequiresEnsures.requires.?_pre_post_definition 8 #9754 #9757
[attach-var-names] #9758 (|args!| ; |Poly|) (|self!| ; |Poly|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9759 has_type #43 #9581
[mk-app] #9760 and #9759 #5718 #5445
[mk-app] #9761 vstd!pervasive.FnWithRequiresEnsures.ensures.? #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #9762 has_type #9761 #135
[mk-app] #9763 => #9760 #9762
[mk-app] #9764 pattern #9761
[mk-quant] #9765 internal_vstd!pervasive.FnWithRequiresEnsures.ensures.?_pre_post_definition 9 #9764 #9763
[attach-var-names] #9765 (|output!| ; |Poly|) (|args!| ; |Poly|) (|self!| ; |Poly|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9766 not #9760
[mk-app] #9767 or #9766 #9762
[inst-discovered] theory-solving 0x0 basic# ; #9763
[mk-app] #9768 = #9763 #9767
[instance] 0x0 #9768
[attach-enode] #9768 0
[end-of-instance]
[mk-quant] #9768 internal_vstd!pervasive.FnWithRequiresEnsures.ensures.?_pre_post_definition 9 #9764 #9767
[attach-var-names] #9768 (|output!| ; |Poly|) (|args!| ; |Poly|) (|self!| ; |Poly|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9769 fuel_bool_default #1235
[mk-app] #9770 fuel_bool #1235
[mk-app] #9771 proj%%core!ops.function.FnOnce./Output #1593 #263 #3199 #1621
[mk-app] #9772 = #1592 #9771
[mk-app] #9773 proj%core!ops.function.FnOnce./Output #1593 #263 #3199 #1621
[mk-app] #9774 = #1573 #9773
[mk-app] #9775 and #9772 #9774
[mk-app] #9776 tr_bound%core!marker.Tuple. #3199 #1621
[mk-app] #9777 tr_bound%core!ops.function.FnOnce. #1593 #263 #3199 #1621
[mk-app] #9778 sized #3199
[mk-app] #9779 and #9775 #2798 #2799 #9776 #9777 #9778
[mk-app] #9780 vstd!pervasive.FnWithRequiresEnsures.requires.? #1593 #263 #3199 #1621 #1592 #1573 #32 #33
[mk-app] #9781 closure_req #263 #3199 #1621 #32 #33
[mk-app] #9782 B #9781
[mk-app] #9783 = #9780 #9782
[mk-app] #9784 => #9779 #9783
[mk-app] #9785 pattern #9780
[mk-quant] #9786 internal_vstd!pervasive.impl&__0.requires.?_definition 8 #9785 #9784
[attach-var-names] #9786 (|args!| ; |Poly|) (|self!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #9787 => #9770 #9786
[mk-app] #9788 and #9772 #9774 #2798 #2799 #9776 #9777 #9778
[mk-app] #9789 not #9788
[mk-app] #9790 or #9789 #9783
[mk-app] #9791 => #9788 #9783
[inst-discovered] theory-solving 0x0 basic# ; #9791
[mk-app] #9792 = #9791 #9790
[instance] 0x0 #9792
[attach-enode] #9792 0
[end-of-instance]
[mk-quant] #9791 internal_vstd!pervasive.impl&__0.requires.?_definition 8 #9785 #9790
[attach-var-names] #9791 (|args!| ; |Poly|) (|self!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #9792 not #9770
[mk-app] #9793 or #9792 #9791
[mk-app] #9794 => #9770 #9791
[inst-discovered] theory-solving 0x0 basic# ; #9794
[mk-app] #9795 = #9794 #9793
[instance] 0x0 #9795
[attach-enode] #9795 0
[end-of-instance]
[mk-app] #9794 fuel_bool_default #1236
[mk-app] #9795 fuel_bool #1236
[mk-app] #9796 proj%%core!ops.function.FnOnce./Output #1560 #1561 #9580 #9581
[mk-app] #9797 = #1615 #9796
[mk-app] #9798 proj%core!ops.function.FnOnce./Output #1560 #1561 #9580 #9581
[mk-app] #9799 = #1616 #9798
[mk-app] #9800 and #9797 #9799
[mk-app] #9801 tr_bound%core!marker.Tuple. #9580 #9581
[mk-app] #9802 tr_bound%core!ops.function.FnOnce. #1560 #1561 #9580 #9581
[mk-app] #9803 sized #9580
[mk-app] #9804 and #9800 #5628 #5290 #9801 #9802 #9803
[mk-app] #9805 vstd!pervasive.FnWithRequiresEnsures.ensures.? #1560 #1561 #9580 #9581 #1615 #1616 #43 #32 #33
[mk-app] #9806 closure_ens #1561 #9580 #9581 #43 #32 #33
[mk-app] #9807 B #9806
[mk-app] #9808 = #9805 #9807
[mk-app] #9809 => #9804 #9808
[mk-app] #9810 pattern #9805
[mk-quant] #9811 internal_vstd!pervasive.impl&__0.ensures.?_definition 9 #9810 #9809
[attach-var-names] #9811 (|output!| ; |Poly|) (|args!| ; |Poly|) (|self!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #9812 => #9795 #9811
[mk-app] #9813 and #9797 #9799 #5628 #5290 #9801 #9802 #9803
[mk-app] #9814 not #9813
[mk-app] #9815 or #9814 #9808
[mk-app] #9816 => #9813 #9808
[inst-discovered] theory-solving 0x0 basic# ; #9816
[mk-app] #9817 = #9816 #9815
[instance] 0x0 #9817
[attach-enode] #9817 0
[end-of-instance]
[mk-quant] #9816 internal_vstd!pervasive.impl&__0.ensures.?_definition 9 #9810 #9815
[attach-var-names] #9816 (|output!| ; |Poly|) (|args!| ; |Poly|) (|self!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #9817 not #9795
[mk-app] #9818 or #9817 #9816
[mk-app] #9819 => #9795 #9816
[inst-discovered] theory-solving 0x0 basic# ; #9819
[mk-app] #9820 = #9819 #9818
[instance] 0x0 #9820
[attach-enode] #9820 0
[end-of-instance]
[mk-app] #9819 req%vstd!pervasive.exec_nonstatic_call. #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #9820 %%global_location_label%%19
[mk-app] #9821 => #9820 #9781
[mk-app] #9822 = #9819 #9821
[mk-app] #9823 pattern #9819
[mk-quant] #9824 internal_req__vstd!pervasive.exec_nonstatic_call._definition 8 #9823 #9822
[attach-var-names] #9824 (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #9825 not #9820
[mk-app] #9826 or #9825 #9781
[inst-discovered] theory-solving 0x0 basic# ; #9821
[mk-app] #9827 = #9821 #9826
[instance] 0x0 #9827
[attach-enode] #9827 0
[end-of-instance]
[mk-app] #9827 = #9819 #9826
[mk-quant] #9828 internal_req__vstd!pervasive.exec_nonstatic_call._definition 8 #9823 #9827
[attach-var-names] #9828 (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #9829 ens%vstd!pervasive.exec_nonstatic_call. #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #9830 has_type #33 #1616
[mk-app] #9831 and #9830 #9806
[mk-app] #9832 = #9829 #9831
[mk-app] #9833 pattern #9829
[mk-quant] #9834 internal_ens__vstd!pervasive.exec_nonstatic_call._definition 9 #9833 #9832
[attach-var-names] #9834 (|output!| ; |Poly|) (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #9835 proj%%core!ops.function.FnOnce./Output #44 #45 #1592 #1573
[mk-app] #9836 = #1593 #9835
[mk-app] #9837 proj%core!ops.function.FnOnce./Output #44 #45 #1592 #1573
[mk-app] #9838 = #263 #9837
[mk-app] #9839 and #9836 #9838
[mk-app] #9840 tr_bound%core!ops.function.FnOnce. #44 #45 #1592 #1573
[mk-app] #9841 and #9839 #2799 #2788 #4640 #9840 #2798
[mk-app] #9842 tr_bound%vstd!pervasive.FnWithRequiresEnsures. #44 #45 #1592 #1573 #1593 #263
[mk-app] #9843 => #9841 #9842
[mk-app] #9844 pattern #9842
[mk-quant] #9845 internal_vstd__pervasive__impl&__0_trait_impl_definition 6 #9844 #9843
[attach-var-names] #9845 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #9846 and #9836 #9838 #2799 #2788 #4640 #9840 #2798
[mk-app] #9847 not #9846
[mk-app] #9848 or #9847 #9842
[mk-app] #9849 => #9846 #9842
[inst-discovered] theory-solving 0x0 basic# ; #9849
[mk-app] #9850 = #9849 #9848
[instance] 0x0 #9850
[attach-enode] #9850 0
[end-of-instance]
[mk-quant] #9849 internal_vstd__pervasive__impl&__0_trait_impl_definition 6 #9844 #9848
[attach-var-names] #9849 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-var] #9850 13
[mk-var] #9851 12
[mk-app] #9852 req%g1!matrix.traits.Matrix.inspect. #9850 #9851 #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #9853 %%global_location_label%%20
[mk-var] #9854 13
[mk-app] #9855 has_type #33 #9854
[mk-var] #9856 14
[mk-app] #9857 REF #9856
[mk-app] #9858 DST #9857
[mk-app] #9859 TYPE%tuple%1. #9857 #9854
[mk-app] #9860 closure_req #1616 #9858 #9859 #32 #2538
[mk-app] #9861 => #9855 #9860
[mk-app] #9862 pattern #9860
[mk-quant] #9863 user_g1__matrix__traits__Matrix__inspect_0 1 #9862 #9861
[attach-var-names] #9863 (|m$| ; |Poly|)
[mk-app] #9864 => #9853 #9863
[mk-app] #9865 = #9852 #9864
[mk-app] #9866 pattern #9852
[mk-quant] #9867 internal_req__g1!matrix.traits.Matrix.inspect._definition 14 #9866 #9865
[attach-var-names] #9867 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9868 not #9855
[mk-app] #9869 or #9868 #9860
[inst-discovered] theory-solving 0x0 basic# ; #9861
[mk-app] #9870 = #9861 #9869
[instance] 0x0 #9870
[attach-enode] #9870 0
[end-of-instance]
[mk-quant] #9870 user_g1__matrix__traits__Matrix__inspect_0 1 #9862 #9869
[attach-var-names] #9870 (|m$| ; |Poly|)
[mk-app] #9871 not #9853
[mk-app] #9872 or #9871 #9870
[mk-app] #9873 => #9853 #9870
[inst-discovered] theory-solving 0x0 basic# ; #9873
[mk-app] #9874 = #9873 #9872
[instance] 0x0 #9874
[attach-enode] #9874 0
[end-of-instance]
[mk-app] #9873 = #9852 #9872
[mk-quant] #9874 internal_req__g1!matrix.traits.Matrix.inspect._definition 14 #9866 #9873
[attach-var-names] #9874 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-var] #9875 15
[mk-var] #9876 12
[mk-var] #9877 11
[mk-app] #9878 ens%g1!matrix.traits.Matrix.inspect. #9875 #9856 #9854 #9876 #9877 #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-var] #9879 15
[mk-app] #9880 REF #9879
[mk-app] #9881 DST #9880
[mk-var] #9882 14
[mk-app] #9883 TYPE%tuple%1. #9880 #9882
[mk-app] #9884 tuple%1./tuple%1 #63
[mk-app] #9885 Poly%tuple%1. #9884
[mk-app] #9886 closure_ens #1621 #9881 #9883 #33 #9885 #32
[mk-app] #9887 and #1622 #9886
[mk-app] #9888 pattern #9886
[mk-quant] #9889 user_g1__matrix__traits__Matrix__inspect_1 1 #9888 #9887
[attach-var-names] #9889 (|f0$| ; |Poly|)
[mk-app] #9890 and #5445 #9889
[mk-app] #9891 = #9878 #9890
[mk-app] #9892 pattern #9878
[mk-quant] #9893 internal_ens__g1!matrix.traits.Matrix.inspect._definition 16 #9892 #9891
[attach-var-names] #9893 (|r!| ; |Poly|) (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #9894 req%g1!matrix.traits.Matrix.get. #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #9895 %%global_location_label%%21
[mk-app] #9896 => #9895 #9656
[mk-app] #9897 %%global_location_label%%22
[mk-app] #9898 => #9897 #9659
[mk-app] #9899 %%global_location_label%%23
[mk-app] #9900 => #9899 #9665
[mk-app] #9901 and #9896 #9898 #9900
[mk-app] #9902 = #9894 #9901
[mk-app] #9903 pattern #9894
[mk-quant] #9904 internal_req__g1!matrix.traits.Matrix.get._definition 11 #9903 #9902
[attach-var-names] #9904 (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9905 <= #9655 #676
[mk-app] #9906 not #9905
[inst-discovered] theory-solving 0x0 arith# ; #9656
[mk-app] #9907 = #9656 #9906
[instance] 0x0 #9907
[attach-enode] #9907 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9907 + #5268 #9655
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9905
[mk-app] #9907 = #9905 #9673
[instance] 0x0 #9907
[attach-enode] #9907 0
[end-of-instance]
[mk-app] #9907 not #9895
[mk-app] #9908 or #9907 #9676
[mk-app] #9909 => #9895 #9676
[inst-discovered] theory-solving 0x0 basic# ; #9909
[mk-app] #9910 = #9909 #9908
[instance] 0x0 #9910
[attach-enode] #9910 0
[end-of-instance]
[mk-app] #9909 <= #9615 #186
[mk-app] #9910 not #9909
[inst-discovered] theory-solving 0x0 arith# ; #9659
[mk-app] #9911 = #9659 #9910
[instance] 0x0 #9911
[attach-enode] #9911 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9911 * #365 #186
[mk-app] #9912 + #9911 #9615
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9909
[mk-app] #9911 = #9909 #9681
[instance] 0x0 #9911
[attach-enode] #9911 0
[end-of-instance]
[mk-app] #9911 not #9897
[mk-app] #9912 or #9911 #9682
[mk-app] #9913 => #9897 #9682
[inst-discovered] theory-solving 0x0 basic# ; #9913
[mk-app] #9914 = #9913 #9912
[instance] 0x0 #9914
[attach-enode] #9914 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9665
[mk-app] #9913 = #9665 #9689
[instance] 0x0 #9913
[attach-enode] #9913 0
[end-of-instance]
[mk-app] #9913 not #9899
[mk-app] #9914 or #9913 #9689
[mk-app] #9915 => #9899 #9689
[inst-discovered] theory-solving 0x0 basic# ; #9915
[mk-app] #9916 = #9915 #9914
[instance] 0x0 #9916
[attach-enode] #9916 0
[end-of-instance]
[mk-app] #9915 and #9908 #9912 #9914
[mk-app] #9916 = #9894 #9915
[mk-quant] #9917 internal_req__g1!matrix.traits.Matrix.get._definition 11 #9903 #9916
[attach-var-names] #9917 (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9909 ens%g1!matrix.traits.Matrix.get. #9679 #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #63 #43 #32 #33
[mk-app] #9910 = #9909 #9701
[mk-app] #9905 pattern #9909
[mk-quant] #9906 internal_ens__g1!matrix.traits.Matrix.get._definition 13 #9905 #9910
[attach-var-names] #9906 (|r!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #9918 fuel_bool_default #1301
[mk-app] #9919 fuel_bool #1301
[mk-app] #9920 g1!g.frame.? #1560 #1561 #43 #32 #33
[mk-app] #9921 vstd!seq.Seq.len.? #1560 #1561 #32
[mk-app] #9922 = #5257 #9921
[mk-app] #9923 vstd!seq.Seq.len.? #1592 #1573 #43
[mk-app] #9924 < #186 #9923
[mk-app] #9925 and #5258 #9924
[mk-app] #9926 vstd!seq.Seq.index.? #1592 #1573 #43 #33
[mk-app] #9927 vstd!seq.Seq.index.? #1592 #1573 #63 #33
[mk-app] #9928 = #9926 #9927
[mk-app] #9929 => #9925 #9928
[mk-app] #9930 => #185 #9929
[mk-app] #9931 pattern #9926
[mk-quant] #9932 user_g1__g__frame_0 1 #9931 #9930
[attach-var-names] #9932 (|q$| ; |Poly|)
[mk-app] #9933 and #9922 #9932
[mk-app] #9934 = #9920 #9933
[mk-app] #9935 pattern #9920
[mk-quant] #9936 internal_g1!g.frame.?_definition 5 #9935 #9934
[attach-var-names] #9936 (|n!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9937 => #9919 #9936
[attach-meaning] #365 arith (- 1)
[mk-app] #9938 * #365 #186
[mk-app] #9939 + #9938 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #9938 = #5258 #5266
[instance] 0x0 #9938
[attach-enode] #9938 0
[end-of-instance]
[mk-app] #9938 <= #9923 #186
[mk-app] #9939 not #9938
[inst-discovered] theory-solving 0x0 arith# ; #9924
[mk-app] #9940 = #9924 #9939
[instance] 0x0 #9940
[attach-enode] #9940 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9940 * #365 #186
[mk-app] #9941 + #9940 #9923
[attach-meaning] #365 arith (- 1)
[mk-app] #9942 * #365 #9923
[mk-app] #9943 + #186 #9942
[mk-app] #9940 >= #9943 #336
[inst-discovered] theory-solving 0x0 arith# ; #9938
[mk-app] #9941 = #9938 #9940
[instance] 0x0 #9941
[attach-enode] #9941 0
[end-of-instance]
[mk-app] #9941 not #9940
[mk-app] #9944 and #5266 #9941
[mk-app] #9945 not #9944
[mk-app] #9946 or #9945 #9928
[mk-app] #9947 => #9944 #9928
[inst-discovered] theory-solving 0x0 basic# ; #9947
[mk-app] #9948 = #9947 #9946
[instance] 0x0 #9948
[attach-enode] #9948 0
[end-of-instance]
[mk-app] #9947 or #192 #9945 #9928
[mk-app] #9948 => #185 #9946
[inst-discovered] theory-solving 0x0 basic# ; #9948
[mk-app] #9949 = #9948 #9947
[instance] 0x0 #9949
[attach-enode] #9949 0
[end-of-instance]
[mk-quant] #9946 user_g1__g__frame_0 1 #9931 #9947
[attach-var-names] #9946 (|q$| ; |Poly|)
[mk-app] #9938 and #9922 #9946
[mk-app] #9939 = #9920 #9938
[mk-quant] #9948 internal_g1!g.frame.?_definition 5 #9935 #9939
[attach-var-names] #9948 (|n!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9949 not #9919
[mk-app] #9950 or #9949 #9948
[mk-app] #9951 => #9919 #9948
[inst-discovered] theory-solving 0x0 basic# ; #9951
[mk-app] #9952 = #9951 #9950
[instance] 0x0 #9952
[attach-enode] #9952 0
[end-of-instance]
[mk-app] #9951 req%g1!matrix.traits.Matrix.get_column_copy. #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #9952 %%global_location_label%%24
[mk-app] #9953 >= #9655 #291
[mk-app] #9954 => #9952 #9953
[mk-app] #9955 %%global_location_label%%25
[mk-app] #9956 < #676 #9615
[mk-app] #9957 => #9955 #9956
[mk-app] #9958 %%global_location_label%%26
[mk-app] #9959 => #9958 #9665
[mk-app] #9960 %%global_location_label%%27
[mk-app] #9961 vstd!view.View.view.? #1542 #5855 #2709
[mk-app] #9962 vstd!seq.Seq.len.? #1560 #1561 #9961
[mk-app] #9963 <= #9655 #9962
[mk-app] #9964 => #9960 #9963
[mk-app] #9965 %%global_location_label%%28
[mk-app] #9966 <= #9664 #7903
[mk-app] #9967 => #9965 #9966
[mk-app] #9968 and #9954 #9957 #9959 #9964 #9967
[mk-app] #9969 = #9951 #9968
[mk-app] #9970 pattern #9951
[mk-quant] #9971 internal_req__g1!matrix.traits.Matrix.get_column_copy._definition 11 #9970 #9969
[attach-var-names] #9971 (|col_data!| ; |Poly|) (|column!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #9972 not #9952
[mk-app] #9973 or #9972 #9953
[inst-discovered] theory-solving 0x0 basic# ; #9954
[mk-app] #9974 = #9954 #9973
[instance] 0x0 #9974
[attach-enode] #9974 0
[end-of-instance]
[mk-app] #9974 <= #9615 #676
[mk-app] #9975 not #9974
[inst-discovered] theory-solving 0x0 arith# ; #9956
[mk-app] #9976 = #9956 #9975
[instance] 0x0 #9976
[attach-enode] #9976 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9976 + #5268 #9615
[attach-meaning] #365 arith (- 1)
[mk-app] #9977 + #676 #9683
[mk-app] #9976 >= #9977 #336
[inst-discovered] theory-solving 0x0 arith# ; #9974
[mk-app] #9978 = #9974 #9976
[instance] 0x0 #9978
[attach-enode] #9978 0
[end-of-instance]
[mk-app] #9978 not #9976
[mk-app] #9979 not #9955
[mk-app] #9980 or #9979 #9978
[mk-app] #9981 => #9955 #9978
[inst-discovered] theory-solving 0x0 basic# ; #9981
[mk-app] #9982 = #9981 #9980
[instance] 0x0 #9982
[attach-enode] #9982 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9665
[mk-app] #9981 = #9665 #9689
[instance] 0x0 #9981
[attach-enode] #9981 0
[end-of-instance]
[mk-app] #9981 not #9958
[mk-app] #9982 or #9981 #9689
[mk-app] #9983 => #9958 #9689
[inst-discovered] theory-solving 0x0 basic# ; #9983
[mk-app] #9984 = #9983 #9982
[instance] 0x0 #9984
[attach-enode] #9984 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9983 * #365 #9962
[mk-app] #9984 + #9655 #9983
[mk-app] #9985 <= #9984 #336
[inst-discovered] theory-solving 0x0 arith# ; #9963
[mk-app] #9986 = #9963 #9985
[instance] 0x0 #9986
[attach-enode] #9986 0
[end-of-instance]
[mk-app] #9986 not #9960
[mk-app] #9987 or #9986 #9985
[mk-app] #9988 => #9960 #9985
[inst-discovered] theory-solving 0x0 basic# ; #9988
[mk-app] #9989 = #9988 #9987
[instance] 0x0 #9989
[attach-enode] #9989 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9988 * #365 #291
[mk-app] #9989 + #7902 #9988
[inst-discovered] theory-solving 0x0 arith# ; #7903
[mk-app] #9990 = #7903 #9989
[instance] 0x0 #9990
[attach-enode] #9990 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9988
[mk-app] #9990 = #9988 #365
[instance] 0x0 #9990
[attach-enode] #9990 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #9990 + #365 #7902
[mk-app] #9991 + #7902 #365
[inst-discovered] theory-solving 0x0 arith# ; #9991
[mk-app] #9992 = #9991 #9990
[instance] 0x0 #9992
[attach-enode] #9992 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[attach-meaning] #365 arith (- 1)
[mk-app] #9991 + #7917 #9664
[attach-meaning] #365 arith (- 1)
[mk-app] #9992 + #7902 #9687
[mk-app] #9991 >= #9992 #291
[mk-app] #9993 <= #9664 #9990
[inst-discovered] theory-solving 0x0 arith# ; #9993
[mk-app] #9994 = #9993 #9991
[instance] 0x0 #9994
[attach-enode] #9994 0
[end-of-instance]
[mk-app] #9993 not #9965
[mk-app] #9994 or #9993 #9991
[mk-app] #9995 => #9965 #9991
[inst-discovered] theory-solving 0x0 basic# ; #9995
[mk-app] #9996 = #9995 #9994
[instance] 0x0 #9996
[attach-enode] #9996 0
[end-of-instance]
[mk-app] #9995 and #9973 #9980 #9982 #9987 #9994
[mk-app] #9996 = #9951 #9995
[mk-quant] #9997 internal_req__g1!matrix.traits.Matrix.get_column_copy._definition 11 #9970 #9996
[attach-var-names] #9997 (|col_data!| ; |Poly|) (|column!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-var] #9990 11
[mk-app] #9974 ens%g1!matrix.traits.Matrix.get_column_copy. #9990 #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #9975 vstd!view.View.view.? #1542 #5855 #2710
[mk-app] #9988 I #9655
[mk-app] #9989 g1!g.frame.? #1560 #1561 #9961 #9975 #9988
[mk-app] #9998 const_int #9597
[mk-app] #9999 < #186 #9998
[mk-app] #10000 and #512 #9999
[mk-app] #10001 SLICE #1592 #1573
[mk-app] #10002 vstd!view.View.view.? #1542 #10001 #40
[mk-app] #10003 vstd!seq.Seq.index.? #1592 #1573 #10002 #33
[mk-app] #10004 g1!g.ix.? #33 #43 #9696
[mk-app] #10005 I #10004
[mk-app] #10006 vstd!seq.Seq.index.? #1592 #1573 #9695 #10005
[mk-app] #10007 = #10003 #10006
[mk-app] #10008 => #10000 #10007
[mk-app] #10009 => #185 #10008
[mk-app] #10010 pattern #10003
[mk-quant] #10011 user_g1__matrix__traits__Matrix__get_column_copy_0 1 #10010 #10009
[attach-var-names] #10011 (|i$| ; |Poly|)
[mk-app] #10012 and #9989 #10011
[mk-app] #10013 = #9974 #10012
[mk-app] #10014 pattern #9974
[mk-quant] #10015 internal_ens__g1!matrix.traits.Matrix.get_column_copy._definition 12 #10014 #10013
[attach-var-names] #10015 (|col_data!| ; |Poly|) (|column!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[attach-meaning] #365 arith (- 1)
[mk-app] #10016 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #10016 = #512 #516
[instance] 0x0 #10016
[attach-enode] #10016 0
[end-of-instance]
[mk-app] #10016 <= #9998 #186
[mk-app] #10017 not #10016
[inst-discovered] theory-solving 0x0 arith# ; #9999
[mk-app] #10018 = #9999 #10017
[instance] 0x0 #10018
[attach-enode] #10018 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10018 * #365 #186
[mk-app] #10019 + #10018 #9998
[attach-meaning] #365 arith (- 1)
[mk-app] #10020 * #365 #9998
[mk-app] #10021 + #186 #10020
[mk-app] #10018 >= #10021 #336
[inst-discovered] theory-solving 0x0 arith# ; #10016
[mk-app] #10019 = #10016 #10018
[instance] 0x0 #10019
[attach-enode] #10019 0
[end-of-instance]
[mk-app] #10019 not #10018
[mk-app] #10022 and #516 #10019
[mk-app] #10023 not #10022
[mk-app] #10024 or #10023 #10007
[mk-app] #10025 => #10022 #10007
[inst-discovered] theory-solving 0x0 basic# ; #10025
[mk-app] #10026 = #10025 #10024
[instance] 0x0 #10026
[attach-enode] #10026 0
[end-of-instance]
[mk-app] #10025 or #192 #10023 #10007
[mk-app] #10026 => #185 #10024
[inst-discovered] theory-solving 0x0 basic# ; #10026
[mk-app] #10027 = #10026 #10025
[instance] 0x0 #10027
[attach-enode] #10027 0
[end-of-instance]
[mk-quant] #10024 user_g1__matrix__traits__Matrix__get_column_copy_0 1 #10010 #10025
[attach-var-names] #10024 (|i$| ; |Poly|)
[mk-app] #10016 and #9989 #10024
[mk-app] #10017 = #9974 #10016
[mk-quant] #10026 internal_ens__g1!matrix.traits.Matrix.get_column_copy._definition 12 #10014 #10017
[attach-var-names] #10026 (|col_data!| ; |Poly|) (|column!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10027 req%g1!matrix.traits.Matrix.get_row_copy. #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #10028 %%global_location_label%%29
[mk-app] #10029 => #10028 #9656
[mk-app] #10030 %%global_location_label%%30
[mk-app] #10031 >= #9615 #291
[mk-app] #10032 => #10030 #10031
[mk-app] #10033 %%global_location_label%%31
[mk-app] #10034 => #10033 #9665
[mk-app] #10035 %%global_location_label%%32
[mk-app] #10036 <= #9615 #9962
[mk-app] #10037 => #10035 #10036
[mk-app] #10038 and #10029 #10032 #10034 #10037
[mk-app] #10039 = #10027 #10038
[mk-app] #10040 pattern #10027
[mk-quant] #10041 internal_req__g1!matrix.traits.Matrix.get_row_copy._definition 11 #10040 #10039
[attach-var-names] #10041 (|row_data!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10042 <= #9655 #676
[mk-app] #10043 not #10042
[inst-discovered] theory-solving 0x0 arith# ; #9656
[mk-app] #10044 = #9656 #10043
[instance] 0x0 #10044
[attach-enode] #10044 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10044 + #5268 #9655
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10042
[mk-app] #10044 = #10042 #9673
[instance] 0x0 #10044
[attach-enode] #10044 0
[end-of-instance]
[mk-app] #10044 not #10028
[mk-app] #10045 or #10044 #9676
[mk-app] #10046 => #10028 #9676
[inst-discovered] theory-solving 0x0 basic# ; #10046
[mk-app] #10047 = #10046 #10045
[instance] 0x0 #10047
[attach-enode] #10047 0
[end-of-instance]
[mk-app] #10046 not #10030
[mk-app] #10047 or #10046 #10031
[inst-discovered] theory-solving 0x0 basic# ; #10032
[mk-app] #10048 = #10032 #10047
[instance] 0x0 #10048
[attach-enode] #10048 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #9665
[mk-app] #10048 = #9665 #9689
[instance] 0x0 #10048
[attach-enode] #10048 0
[end-of-instance]
[mk-app] #10048 not #10033
[mk-app] #10049 or #10048 #9689
[mk-app] #10050 => #10033 #9689
[inst-discovered] theory-solving 0x0 basic# ; #10050
[mk-app] #10051 = #10050 #10049
[instance] 0x0 #10051
[attach-enode] #10051 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10050 + #9615 #9983
[mk-app] #10051 <= #10050 #336
[inst-discovered] theory-solving 0x0 arith# ; #10036
[mk-app] #10052 = #10036 #10051
[instance] 0x0 #10052
[attach-enode] #10052 0
[end-of-instance]
[mk-app] #10052 not #10035
[mk-app] #10053 or #10052 #10051
[mk-app] #10054 => #10035 #10051
[inst-discovered] theory-solving 0x0 basic# ; #10054
[mk-app] #10055 = #10054 #10053
[instance] 0x0 #10055
[attach-enode] #10055 0
[end-of-instance]
[mk-app] #10054 and #10045 #10047 #10049 #10053
[mk-app] #10055 = #10027 #10054
[mk-quant] #10056 internal_req__g1!matrix.traits.Matrix.get_row_copy._definition 11 #10040 #10055
[attach-var-names] #10056 (|row_data!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10042 ens%g1!matrix.traits.Matrix.get_row_copy. #9990 #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #10043 I #9615
[mk-app] #10057 g1!g.frame.? #1560 #1561 #9961 #9975 #10043
[mk-app] #10058 < #186 #9630
[mk-app] #10059 and #512 #10058
[mk-app] #10060 g1!g.ix.? #43 #33 #9696
[mk-app] #10061 I #10060
[mk-app] #10062 vstd!seq.Seq.index.? #1592 #1573 #9695 #10061
[mk-app] #10063 = #10003 #10062
[mk-app] #10064 => #10059 #10063
[mk-app] #10065 => #185 #10064
[mk-quant] #10066 user_g1__matrix__traits__Matrix__get_row_copy_0 1 #10010 #10065
[attach-var-names] #10066 (|j$| ; |Poly|)
[mk-app] #10067 and #10057 #10066
[mk-app] #10068 = #10042 #10067
[mk-app] #10069 pattern #10042
[mk-quant] #10070 internal_ens__g1!matrix.traits.Matrix.get_row_copy._definition 12 #10069 #10068
[attach-var-names] #10070 (|row_data!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[attach-meaning] #365 arith (- 1)
[mk-app] #10071 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #10071 = #512 #516
[instance] 0x0 #10071
[attach-enode] #10071 0
[end-of-instance]
[mk-app] #10071 <= #9630 #186
[mk-app] #10072 not #10071
[inst-discovered] theory-solving 0x0 arith# ; #10058
[mk-app] #10073 = #10058 #10072
[instance] 0x0 #10073
[attach-enode] #10073 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10073 * #365 #186
[mk-app] #10074 + #10073 #9630
[attach-meaning] #365 arith (- 1)
[mk-app] #10075 * #365 #9630
[mk-app] #10076 + #186 #10075
[mk-app] #10073 >= #10076 #336
[inst-discovered] theory-solving 0x0 arith# ; #10071
[mk-app] #10074 = #10071 #10073
[instance] 0x0 #10074
[attach-enode] #10074 0
[end-of-instance]
[mk-app] #10074 not #10073
[mk-app] #10077 and #516 #10074
[mk-app] #10078 not #10077
[mk-app] #10079 or #10078 #10063
[mk-app] #10080 => #10077 #10063
[inst-discovered] theory-solving 0x0 basic# ; #10080
[mk-app] #10081 = #10080 #10079
[instance] 0x0 #10081
[attach-enode] #10081 0
[end-of-instance]
[mk-app] #10080 or #192 #10078 #10063
[mk-app] #10081 => #185 #10079
[inst-discovered] theory-solving 0x0 basic# ; #10081
[mk-app] #10082 = #10081 #10080
[instance] 0x0 #10082
[attach-enode] #10082 0
[end-of-instance]
[mk-quant] #10079 user_g1__matrix__traits__Matrix__get_row_copy_0 1 #10010 #10080
[attach-var-names] #10079 (|j$| ; |Poly|)
[mk-app] #10071 and #10057 #10079
[mk-app] #10072 = #10042 #10071
[mk-quant] #10081 internal_ens__g1!matrix.traits.Matrix.get_row_copy._definition 12 #10069 #10072
[attach-var-names] #10081 (|row_data!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10082 g1!matrix.traits.AsMatrix.mdata.? #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #33
[mk-app] #10083 has_type #10082 #5177
[mk-app] #10084 => #9582 #10083
[mk-app] #10085 pattern #10082
[mk-quant] #10086 internal_g1!matrix.traits.AsMatrix.mdata.?_pre_post_definition 9 #10085 #10084
[attach-var-names] #10086 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10087 or #9588 #10083
[inst-discovered] theory-solving 0x0 basic# ; #10084
[mk-app] #10088 = #10084 #10087
[instance] 0x0 #10088
[attach-enode] #10088 0
[end-of-instance]
[mk-quant] #10088 internal_g1!matrix.traits.AsMatrix.mdata.?_pre_post_definition 9 #10085 #10087
[attach-var-names] #10088 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10089 ens%g1!matrix.traits.AsMatrix.as_matrix. #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #10090 proj%g1!matrix.traits.AsMatrix./Target #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263
[mk-app] #10091 has_type #33 #10090
[mk-app] #10092 proj%%g1!matrix.traits.AsMatrix./Target #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263
[mk-app] #10093 g1!matrix.row_major.RowMajorSequentialData.data.? #10092 #10090 #3199 #1621 #1592 #1573 #1593 #263 #33
[mk-app] #10094 g1!matrix.traits.AsMatrix.mdata.? #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32
[mk-app] #10095 = #10093 #10094
[mk-app] #10096 and #10091 #10095
[mk-app] #10097 = #10089 #10096
[mk-app] #10098 pattern #10089
[mk-quant] #10099 internal_ens__g1!matrix.traits.AsMatrix.as_matrix._definition 10 #10098 #10097
[attach-var-names] #10099 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10100 ens%g1!matrix.row_major.RowMajorSequentialDataMut.as_mut_slice. #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #10101 MUTREF #1542 #4750
[mk-app] #10102 has_type #33 #10101
[mk-app] #10103 vstd!view.View.view.? #1542 #4750 #2709
[mk-app] #10104 g1!matrix.row_major.RowMajorSequentialData.data.? #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #5699
[mk-app] #10105 = #10103 #10104
[mk-app] #10106 g1!matrix.row_major.RowMajorSequentialData.data.? #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #40
[mk-app] #10107 vstd!view.View.view.? #1542 #4750 #2710
[mk-app] #10108 = #10106 #10107
[mk-app] #10109 vstd!seq.Seq.len.? #1593 #263 #10104
[mk-app] #10110 <= #10109 #7152
[mk-app] #10111 and #10102 #10105 #10108 #10110
[mk-app] #10112 = #10100 #10111
[mk-app] #10113 pattern #10100
[mk-quant] #10114 internal_ens__g1!matrix.row_major.RowMajorSequentialDataMut.as_mut_slice._definition 10 #10113 #10112
[attach-var-names] #10114 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #10115 * #365 #291
[mk-app] #10116 + #7151 #10115
[inst-discovered] theory-solving 0x0 arith# ; #7152
[mk-app] #10117 = #7152 #10116
[instance] 0x0 #10117
[attach-enode] #10117 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10115
[mk-app] #10117 = #10115 #365
[instance] 0x0 #10117
[attach-enode] #10117 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10117 + #365 #7151
[mk-app] #10118 + #7151 #365
[inst-discovered] theory-solving 0x0 arith# ; #10118
[mk-app] #10119 = #10118 #10117
[instance] 0x0 #10119
[attach-enode] #10119 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[attach-meaning] #365 arith (- 1)
[mk-app] #10118 + #7166 #10109
[attach-meaning] #365 arith (- 1)
[mk-app] #10119 * #365 #10109
[mk-app] #10120 + #7151 #10119
[mk-app] #10118 >= #10120 #291
[mk-app] #10121 <= #10109 #10117
[inst-discovered] theory-solving 0x0 arith# ; #10121
[mk-app] #10122 = #10121 #10118
[instance] 0x0 #10122
[attach-enode] #10122 0
[end-of-instance]
[mk-app] #10121 and #10102 #10105 #10108 #10118
[mk-app] #10122 = #10100 #10121
[mk-quant] #10123 internal_ens__g1!matrix.row_major.RowMajorSequentialDataMut.as_mut_slice._definition 10 #10113 #10122
[attach-var-names] #10123 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10117 req%g1!matrix.row_major.RowMajorSequentialDataMut.set_at. #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #63 #43 #32 #33
[mk-app] #10115 %%global_location_label%%33
[mk-app] #10116 < #666 #9998
[mk-app] #10124 => #10115 #10116
[mk-app] #10125 %%global_location_label%%34
[mk-app] #10126 < #676 #9630
[mk-app] #10127 => #10125 #10126
[mk-app] #10128 %%global_location_label%%35
[mk-app] #10129 Mul #9998 #9630
[mk-app] #10130 mut_ref_current% #63
[mk-app] #10131 g1!matrix.row_major.RowMajorSequentialData.data.? #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #10130
[mk-app] #10132 vstd!seq.Seq.len.? #1592 #1573 #10131
[mk-app] #10133 <= #10129 #10132
[mk-app] #10134 => #10128 #10133
[mk-app] #10135 and #10124 #10127 #10134
[mk-app] #10136 = #10117 #10135
[mk-app] #10137 pattern #10117
[mk-quant] #10138 internal_req__g1!matrix.row_major.RowMajorSequentialDataMut.set_at._definition 12 #10137 #10136
[attach-var-names] #10138 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10139 <= #9998 #666
[mk-app] #10140 not #10139
[inst-discovered] theory-solving 0x0 arith# ; #10116
[mk-app] #10141 = #10116 #10140
[instance] 0x0 #10141
[attach-enode] #10141 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10141 + #5372 #9998
[attach-meaning] #365 arith (- 1)
[mk-app] #10142 + #666 #10020
[mk-app] #10141 >= #10142 #336
[inst-discovered] theory-solving 0x0 arith# ; #10139
[mk-app] #10143 = #10139 #10141
[instance] 0x0 #10143
[attach-enode] #10143 0
[end-of-instance]
[mk-app] #10143 not #10141
[mk-app] #10144 not #10115
[mk-app] #10145 or #10144 #10143
[mk-app] #10146 => #10115 #10143
[inst-discovered] theory-solving 0x0 basic# ; #10146
[mk-app] #10147 = #10146 #10145
[instance] 0x0 #10147
[attach-enode] #10147 0
[end-of-instance]
[mk-app] #10146 <= #9630 #676
[mk-app] #10147 not #10146
[inst-discovered] theory-solving 0x0 arith# ; #10126
[mk-app] #10148 = #10126 #10147
[instance] 0x0 #10148
[attach-enode] #10148 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10148 + #5268 #9630
[attach-meaning] #365 arith (- 1)
[mk-app] #10149 + #676 #10075
[mk-app] #10148 >= #10149 #336
[inst-discovered] theory-solving 0x0 arith# ; #10146
[mk-app] #10150 = #10146 #10148
[instance] 0x0 #10150
[attach-enode] #10150 0
[end-of-instance]
[mk-app] #10150 not #10148
[mk-app] #10151 not #10125
[mk-app] #10152 or #10151 #10150
[mk-app] #10153 => #10125 #10150
[inst-discovered] theory-solving 0x0 basic# ; #10153
[mk-app] #10154 = #10153 #10152
[instance] 0x0 #10154
[attach-enode] #10154 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10153 * #365 #10132
[mk-app] #10154 + #10129 #10153
[mk-app] #10155 <= #10154 #336
[inst-discovered] theory-solving 0x0 arith# ; #10133
[mk-app] #10156 = #10133 #10155
[instance] 0x0 #10156
[attach-enode] #10156 0
[end-of-instance]
[mk-app] #10156 not #10128
[mk-app] #10157 or #10156 #10155
[mk-app] #10158 => #10128 #10155
[inst-discovered] theory-solving 0x0 basic# ; #10158
[mk-app] #10159 = #10158 #10157
[instance] 0x0 #10159
[attach-enode] #10159 0
[end-of-instance]
[mk-app] #10158 and #10145 #10152 #10157
[mk-app] #10159 = #10117 #10158
[mk-quant] #10160 internal_req__g1!matrix.row_major.RowMajorSequentialDataMut.set_at._definition 12 #10137 #10159
[attach-var-names] #10160 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10146 ens%g1!matrix.row_major.RowMajorSequentialDataMut.set_at. #9679 #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #63 #43 #32 #33
[mk-app] #10147 mut_ref_future% #63
[mk-app] #10139 g1!matrix.row_major.RowMajorSequentialData.data.? #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #10147
[mk-app] #10140 vstd!seq.Seq.update.? #1592 #1573 #10131 #9698 #33
[mk-app] #10161 = #10139 #10140
[mk-app] #10162 = #10146 #10161
[mk-app] #10163 pattern #10146
[mk-quant] #10164 internal_ens__g1!matrix.row_major.RowMajorSequentialDataMut.set_at._definition 13 #10163 #10162
[attach-var-names] #10164 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10165 ens%g1!matrix.traits.MatrixMut.index_mut_agrees. #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #33
[mk-app] #10166 has_type #43 #203
[mk-app] #10167 has_type #33 #9671
[mk-app] #10168 and #10166 #1596 #10167
[mk-app] #10169 vstd!seq.Seq.len.? #1592 #1573 #9695
[mk-app] #10170 < #666 #10169
[mk-app] #10171 g1!g.IndexMut.index_post.? #9680 #9671 #120 #203 #63 #43 #32 #33
[mk-app] #10172 %B #10171
[mk-app] #10173 and #10170 #10172
[mk-app] #10174 g1!matrix.row_major.RowMajorSequentialData.data.? #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #33
[mk-app] #10175 vstd!seq.Seq.update.? #1592 #1573 #9695 #43 #32
[mk-app] #10176 = #10174 #10175
[mk-app] #10177 => #10173 #10176
[mk-app] #10178 => #10168 #10177
[mk-app] #10179 pattern #10171
[mk-quant] #10180 user_g1__matrix__traits__MatrixMut__index_mut_agrees_0 3 #10179 #10178
[attach-var-names] #10180 (|post$| ; |Poly|) (|v$| ; |Poly|) (|i$| ; |Poly|)
[mk-app] #10181 = #10165 #10180
[mk-app] #10182 pattern #10165
[mk-quant] #10183 internal_ens__g1!matrix.traits.MatrixMut.index_mut_agrees._definition 9 #10182 #10181
[attach-var-names] #10183 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10184 <= #10169 #666
[mk-app] #10185 not #10184
[inst-discovered] theory-solving 0x0 arith# ; #10170
[mk-app] #10186 = #10170 #10185
[instance] 0x0 #10186
[attach-enode] #10186 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10186 + #5372 #10169
[attach-meaning] #365 arith (- 1)
[mk-app] #10187 * #365 #10169
[mk-app] #10188 + #666 #10187
[mk-app] #10186 >= #10188 #336
[inst-discovered] theory-solving 0x0 arith# ; #10184
[mk-app] #10189 = #10184 #10186
[instance] 0x0 #10189
[attach-enode] #10189 0
[end-of-instance]
[mk-app] #10189 not #10186
[mk-app] #10190 and #10189 #10172
[mk-app] #10191 not #10190
[mk-app] #10192 or #10191 #10176
[mk-app] #10193 => #10190 #10176
[inst-discovered] theory-solving 0x0 basic# ; #10193
[mk-app] #10194 = #10193 #10192
[instance] 0x0 #10194
[attach-enode] #10194 0
[end-of-instance]
[mk-app] #10193 not #10168
[mk-app] #10194 or #10193 #10191 #10176
[mk-app] #10195 => #10168 #10192
[inst-discovered] theory-solving 0x0 basic# ; #10195
[mk-app] #10196 = #10195 #10194
[instance] 0x0 #10196
[attach-enode] #10196 0
[end-of-instance]
[mk-quant] #10192 user_g1__matrix__traits__MatrixMut__index_mut_agrees_0 3 #10179 #10194
[attach-var-names] #10192 (|post$| ; |Poly|) (|v$| ; |Poly|) (|i$| ; |Poly|)
[mk-app] #10184 = #10165 #10192
[mk-quant] #10185 internal_ens__g1!matrix.traits.MatrixMut.index_mut_agrees._definition 9 #10182 #10184
[attach-var-names] #10185 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10195 req%g1!matrix.traits.MatrixMut.apply. #9850 #9851 #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #10196 %%global_location_label%%36
[mk-app] #10197 MUTREF #9856 #9854
[mk-app] #10198 has_type #33 #10197
[mk-app] #10199 TYPE%tuple%1. #120 #10197
[mk-app] #10200 closure_req #1616 #5143 #10199 #32 #2538
[mk-app] #10201 => #10198 #10200
[mk-app] #10202 pattern #10200
[mk-quant] #10203 user_g1__matrix__traits__MatrixMut__apply_0 1 #10202 #10201
[attach-var-names] #10203 (|m$| ; |Poly|)
[mk-app] #10204 => #10196 #10203
[mk-app] #10205 = #10195 #10204
[mk-app] #10206 pattern #10195
[mk-quant] #10207 internal_req__g1!matrix.traits.MatrixMut.apply._definition 14 #10206 #10205
[attach-var-names] #10207 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10208 not #10198
[mk-app] #10209 or #10208 #10200
[inst-discovered] theory-solving 0x0 basic# ; #10201
[mk-app] #10210 = #10201 #10209
[instance] 0x0 #10210
[attach-enode] #10210 0
[end-of-instance]
[mk-quant] #10210 user_g1__matrix__traits__MatrixMut__apply_0 1 #10202 #10209
[attach-var-names] #10210 (|m$| ; |Poly|)
[mk-app] #10211 not #10196
[mk-app] #10212 or #10211 #10210
[mk-app] #10213 => #10196 #10210
[inst-discovered] theory-solving 0x0 basic# ; #10213
[mk-app] #10214 = #10213 #10212
[instance] 0x0 #10214
[attach-enode] #10214 0
[end-of-instance]
[mk-app] #10213 = #10195 #10212
[mk-quant] #10214 internal_req__g1!matrix.traits.MatrixMut.apply._definition 14 #10206 #10213
[attach-var-names] #10214 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10215 ens%g1!matrix.traits.MatrixMut.apply. #9875 #9856 #9854 #9876 #9877 #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #43 #32 #33
[mk-app] #10216 has_type #32 #9581
[mk-var] #10217 16
[mk-var] #10218 15
[mk-app] #10219 MUTREF #10217 #10218
[mk-app] #10220 has_type #33 #10219
[mk-app] #10221 and #10216 #10220
[mk-app] #10222 TYPE%tuple%1. #120 #10219
[mk-app] #10223 closure_ens #9581 #5143 #10222 #32 #2538 #43
[mk-app] #10224 g1!matrix.row_major.RowMajorSequentialData.data.? #10217 #10218 #9856 #9854 #9876 #9877 #9651 #9652 #2709
[mk-app] #10225 mut_ref_current% #5623
[mk-app] #10226 g1!matrix.row_major.RowMajorSequentialData.data.? #10217 #10218 #9856 #9854 #9876 #9877 #9651 #9652 #10225
[mk-app] #10227 = #10224 #10226
[mk-app] #10228 and #10223 #10227
[mk-app] #10229 g1!matrix.row_major.RowMajorSequentialData.data.? #10217 #10218 #9856 #9854 #9876 #9877 #9651 #9652 #2710
[mk-app] #10230 mut_ref_future% #5623
[mk-app] #10231 g1!matrix.row_major.RowMajorSequentialData.data.? #10217 #10218 #9856 #9854 #9876 #9877 #9651 #9652 #10230
[mk-app] #10232 = #10229 #10231
[mk-app] #10233 and #10228 #10232
[mk-app] #10234 and #10221 #10233
[mk-app] #10235 pattern #10223
[mk-quant] #10236 user_g1__matrix__traits__MatrixMut__apply_1 2 #10235 #10234
[attach-var-names] #10236 (|m$| ; |Poly|) (|f0$| ; |Poly|)
[mk-app] #10237 and #5445 #10236
[mk-app] #10238 = #10215 #10237
[mk-app] #10239 pattern #10215
[mk-quant] #10240 internal_ens__g1!matrix.traits.MatrixMut.apply._definition 16 #10239 #10238
[attach-var-names] #10240 (|r!| ; |Poly|) (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10241 and #10216 #10220 #10223 #10227 #10232
[mk-quant] #10242 user_g1__matrix__traits__MatrixMut__apply_1 2 #10235 #10241
[attach-var-names] #10242 (|m$| ; |Poly|) (|f0$| ; |Poly|)
[mk-app] #10243 and #5445 #10242
[mk-app] #10244 = #10215 #10243
[mk-quant] #10245 internal_ens__g1!matrix.traits.MatrixMut.apply._definition 16 #10239 #10244
[attach-var-names] #10245 (|r!| ; |Poly|) (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10246 ens%core!slice.impl&%0.fill. #1593 #263 #32 #33
[mk-app] #10247 vstd!view.View.view.? #1542 #4750 #40
[mk-app] #10248 vstd!seq.Seq.len.? #1593 #263 #10247
[mk-app] #10249 vstd!view.View.view.? #1542 #4750 #5699
[mk-app] #10250 vstd!seq.Seq.len.? #1593 #263 #10249
[mk-app] #10251 = #10248 #10250
[mk-app] #10252 vstd!view.View.view.? #1542 #5855 #48
[mk-app] #10253 vstd!seq.Seq.len.? #1560 #1561 #10252
[mk-app] #10254 < #186 #10253
[mk-app] #10255 and #512 #10254
[mk-app] #10256 vstd!view.View.view.? #1542 #5855 #56
[mk-app] #10257 vstd!seq.Seq.index.? #1560 #1561 #10256 #33
[mk-app] #10258 = #10257 #32
[mk-app] #10259 => #10255 #10258
[mk-app] #10260 => #185 #10259
[mk-app] #10261 pattern #10257
[mk-quant] #10262 user_core__slice__impl&%0__fill_0 1 #10261 #10260
[attach-var-names] #10262 (|i$| ; |Poly|)
[mk-app] #10263 and #10251 #10262
[mk-app] #10264 = #10246 #10263
[mk-app] #10265 pattern #10246
[mk-quant] #10266 internal_ens__core!slice.impl&__0.fill._definition 4 #10265 #10264
[attach-var-names] #10266 (|value!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #10267 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #10267 = #512 #516
[instance] 0x0 #10267
[attach-enode] #10267 0
[end-of-instance]
[mk-app] #10267 <= #10253 #186
[mk-app] #10268 not #10267
[inst-discovered] theory-solving 0x0 arith# ; #10254
[mk-app] #10269 = #10254 #10268
[instance] 0x0 #10269
[attach-enode] #10269 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10269 * #365 #186
[mk-app] #10270 + #10269 #10253
[attach-meaning] #365 arith (- 1)
[mk-app] #10271 * #365 #10253
[mk-app] #10272 + #186 #10271
[mk-app] #10269 >= #10272 #336
[inst-discovered] theory-solving 0x0 arith# ; #10267
[mk-app] #10270 = #10267 #10269
[instance] 0x0 #10270
[attach-enode] #10270 0
[end-of-instance]
[mk-app] #10270 not #10269
[mk-app] #10273 and #516 #10270
[mk-app] #10274 not #10273
[mk-app] #10275 or #10274 #10258
[mk-app] #10276 => #10273 #10258
[inst-discovered] theory-solving 0x0 basic# ; #10276
[mk-app] #10277 = #10276 #10275
[instance] 0x0 #10277
[attach-enode] #10277 0
[end-of-instance]
[mk-app] #10276 or #192 #10274 #10258
[mk-app] #10277 => #185 #10275
[inst-discovered] theory-solving 0x0 basic# ; #10277
[mk-app] #10278 = #10277 #10276
[instance] 0x0 #10278
[attach-enode] #10278 0
[end-of-instance]
[mk-quant] #10275 user_core__slice__impl&%0__fill_0 1 #10261 #10276
[attach-var-names] #10275 (|i$| ; |Poly|)
[mk-app] #10267 and #10251 #10275
[mk-app] #10268 = #10246 #10267
[mk-quant] #10277 internal_ens__core!slice.impl&__0.fill._definition 4 #10265 #10268
[attach-var-names] #10277 (|value!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10278 ens%g1!matrix.traits.MatrixMut.set_all. #9631 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #10279 vstd!seq.Seq.len.? #1593 #263 #10106
[mk-app] #10280 = #10279 #10109
[mk-app] #10281 g1!matrix.row_major.RowMajorSequentialData.data.? #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #48
[mk-app] #10282 vstd!seq.Seq.len.? #1560 #1561 #10281
[mk-app] #10283 < #186 #10282
[mk-app] #10284 and #512 #10283
[mk-app] #10285 g1!matrix.row_major.RowMajorSequentialData.data.? #9651 #9652 #9580 #9581 #1615 #1616 #1560 #1561 #56
[mk-app] #10286 vstd!seq.Seq.index.? #1560 #1561 #10285 #33
[mk-app] #10287 = #10286 #32
[mk-app] #10288 => #10284 #10287
[mk-app] #10289 => #185 #10288
[mk-app] #10290 pattern #10286
[mk-quant] #10291 user_g1__matrix__traits__MatrixMut__set_all_0 1 #10290 #10289
[attach-var-names] #10291 (|q$| ; |Poly|)
[mk-app] #10292 and #10280 #10291
[mk-app] #10293 = #10278 #10292
[mk-app] #10294 pattern #10278
[mk-quant] #10295 internal_ens__g1!matrix.traits.MatrixMut.set_all._definition 11 #10294 #10293
[attach-var-names] #10295 (|value!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[attach-meaning] #365 arith (- 1)
[mk-app] #10296 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #10296 = #512 #516
[instance] 0x0 #10296
[attach-enode] #10296 0
[end-of-instance]
[mk-app] #10296 <= #10282 #186
[mk-app] #10297 not #10296
[inst-discovered] theory-solving 0x0 arith# ; #10283
[mk-app] #10298 = #10283 #10297
[instance] 0x0 #10298
[attach-enode] #10298 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10298 * #365 #186
[mk-app] #10299 + #10298 #10282
[attach-meaning] #365 arith (- 1)
[mk-app] #10300 * #365 #10282
[mk-app] #10301 + #186 #10300
[mk-app] #10298 >= #10301 #336
[inst-discovered] theory-solving 0x0 arith# ; #10296
[mk-app] #10299 = #10296 #10298
[instance] 0x0 #10299
[attach-enode] #10299 0
[end-of-instance]
[mk-app] #10299 not #10298
[mk-app] #10302 and #516 #10299
[mk-app] #10303 not #10302
[mk-app] #10304 or #10303 #10287
[mk-app] #10305 => #10302 #10287
[inst-discovered] theory-solving 0x0 basic# ; #10305
[mk-app] #10306 = #10305 #10304
[instance] 0x0 #10306
[attach-enode] #10306 0
[end-of-instance]
[mk-app] #10305 or #192 #10303 #10287
[mk-app] #10306 => #185 #10304
[inst-discovered] theory-solving 0x0 basic# ; #10306
[mk-app] #10307 = #10306 #10305
[instance] 0x0 #10307
[attach-enode] #10307 0
[end-of-instance]
[mk-quant] #10304 user_g1__matrix__traits__MatrixMut__set_all_0 1 #10290 #10305
[attach-var-names] #10304 (|q$| ; |Poly|)
[mk-app] #10296 and #10280 #10304
[mk-app] #10297 = #10278 #10296
[mk-quant] #10306 internal_ens__g1!matrix.traits.MatrixMut.set_all._definition 11 #10294 #10297
[attach-var-names] #10306 (|value!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-var] #10307 9
[mk-app] #10308 ens%g1!matrix.traits.MatrixMut.clear. #10307 #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #33
[mk-app] #10309 g1!matrix.row_major.RowMajorSequentialData.data.? #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #2710
[mk-app] #10310 vstd!seq.Seq.len.? #64 #65 #10309
[mk-app] #10311 g1!matrix.row_major.RowMajorSequentialData.data.? #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #2709
[mk-app] #10312 vstd!seq.Seq.len.? #64 #65 #10311
[mk-app] #10313 = #10310 #10312
[mk-app] #10314 < #186 #10109
[mk-app] #10315 and #512 #10314
[mk-app] #10316 vstd!seq.Seq.index.? #1593 #263 #10106 #33
[mk-app] #10317 g1!g.Zero.zero_spec.? #1593 #263
[mk-app] #10318 = #10316 #10317
[mk-app] #10319 => #10315 #10318
[mk-app] #10320 => #185 #10319
[mk-app] #10321 pattern #10316
[mk-quant] #10322 user_g1__matrix__traits__MatrixMut__clear_0 1 #10321 #10320
[attach-var-names] #10322 (|q$| ; |Poly|)
[mk-app] #10323 and #10313 #10322
[mk-app] #10324 = #10308 #10323
[mk-app] #10325 pattern #10308
[mk-quant] #10326 internal_ens__g1!matrix.traits.MatrixMut.clear._definition 10 #10325 #10324
[attach-var-names] #10326 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[attach-meaning] #365 arith (- 1)
[mk-app] #10327 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #10327 = #512 #516
[instance] 0x0 #10327
[attach-enode] #10327 0
[end-of-instance]
[mk-app] #10327 <= #10109 #186
[mk-app] #10328 not #10327
[inst-discovered] theory-solving 0x0 arith# ; #10314
[mk-app] #10329 = #10314 #10328
[instance] 0x0 #10329
[attach-enode] #10329 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10329 * #365 #186
[mk-app] #10330 + #10329 #10109
[attach-meaning] #365 arith (- 1)
[mk-app] #10331 + #186 #10119
[mk-app] #10329 >= #10331 #336
[inst-discovered] theory-solving 0x0 arith# ; #10327
[mk-app] #10330 = #10327 #10329
[instance] 0x0 #10330
[attach-enode] #10330 0
[end-of-instance]
[mk-app] #10330 not #10329
[mk-app] #10332 and #516 #10330
[mk-app] #10333 not #10332
[mk-app] #10334 or #10333 #10318
[mk-app] #10335 => #10332 #10318
[inst-discovered] theory-solving 0x0 basic# ; #10335
[mk-app] #10336 = #10335 #10334
[instance] 0x0 #10336
[attach-enode] #10336 0
[end-of-instance]
[mk-app] #10335 or #192 #10333 #10318
[mk-app] #10336 => #185 #10334
[inst-discovered] theory-solving 0x0 basic# ; #10336
[mk-app] #10337 = #10336 #10335
[instance] 0x0 #10337
[attach-enode] #10337 0
[end-of-instance]
[mk-quant] #10334 user_g1__matrix__traits__MatrixMut__clear_0 1 #10321 #10335
[attach-var-names] #10334 (|q$| ; |Poly|)
[mk-app] #10327 and #10313 #10334
[mk-app] #10328 = #10308 #10327
[mk-quant] #10336 internal_ens__g1!matrix.traits.MatrixMut.clear._definition 10 #10325 #10328
[attach-var-names] #10336 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10337 req%g1!matrix.traits.MatrixMut.set. #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #63 #43 #32 #33
[mk-app] #10338 %%global_location_label%%37
[mk-app] #10339 => #10338 #10116
[mk-app] #10340 %%global_location_label%%38
[mk-app] #10341 => #10340 #10126
[mk-app] #10342 %%global_location_label%%39
[mk-app] #10343 => #10342 #10133
[mk-app] #10344 and #10339 #10341 #10343
[mk-app] #10345 = #10337 #10344
[mk-app] #10346 pattern #10337
[mk-quant] #10347 internal_req__g1!matrix.traits.MatrixMut.set._definition 12 #10346 #10345
[attach-var-names] #10347 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10348 <= #9998 #666
[mk-app] #10349 not #10348
[inst-discovered] theory-solving 0x0 arith# ; #10116
[mk-app] #10350 = #10116 #10349
[instance] 0x0 #10350
[attach-enode] #10350 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10350 + #5372 #9998
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10348
[mk-app] #10350 = #10348 #10141
[instance] 0x0 #10350
[attach-enode] #10350 0
[end-of-instance]
[mk-app] #10350 not #10338
[mk-app] #10351 or #10350 #10143
[mk-app] #10352 => #10338 #10143
[inst-discovered] theory-solving 0x0 basic# ; #10352
[mk-app] #10353 = #10352 #10351
[instance] 0x0 #10353
[attach-enode] #10353 0
[end-of-instance]
[mk-app] #10352 <= #9630 #676
[mk-app] #10353 not #10352
[inst-discovered] theory-solving 0x0 arith# ; #10126
[mk-app] #10354 = #10126 #10353
[instance] 0x0 #10354
[attach-enode] #10354 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10354 + #5268 #9630
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10352
[mk-app] #10354 = #10352 #10148
[instance] 0x0 #10354
[attach-enode] #10354 0
[end-of-instance]
[mk-app] #10354 not #10340
[mk-app] #10355 or #10354 #10150
[mk-app] #10356 => #10340 #10150
[inst-discovered] theory-solving 0x0 basic# ; #10356
[mk-app] #10357 = #10356 #10355
[instance] 0x0 #10357
[attach-enode] #10357 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10133
[mk-app] #10356 = #10133 #10155
[instance] 0x0 #10356
[attach-enode] #10356 0
[end-of-instance]
[mk-app] #10356 not #10342
[mk-app] #10357 or #10356 #10155
[mk-app] #10358 => #10342 #10155
[inst-discovered] theory-solving 0x0 basic# ; #10358
[mk-app] #10359 = #10358 #10357
[instance] 0x0 #10359
[attach-enode] #10359 0
[end-of-instance]
[mk-app] #10358 and #10351 #10355 #10357
[mk-app] #10359 = #10337 #10358
[mk-quant] #10360 internal_req__g1!matrix.traits.MatrixMut.set._definition 12 #10346 #10359
[attach-var-names] #10360 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10352 ens%g1!matrix.traits.MatrixMut.set. #9679 #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #63 #43 #32 #33
[mk-app] #10353 = #10352 #10161
[mk-app] #10348 pattern #10352
[mk-quant] #10349 internal_ens__g1!matrix.traits.MatrixMut.set._definition 13 #10348 #10353
[attach-var-names] #10349 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10361 ens%g1!matrix.traits.MatrixMut.set_zero. #10307 #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #33
[mk-quant] #10362 user_g1__matrix__traits__MatrixMut__set_zero_0 1 #10321 #10320
[attach-var-names] #10362 (|q$| ; |Poly|)
[mk-app] #10363 and #10313 #10362
[mk-app] #10364 = #10361 #10363
[mk-app] #10365 pattern #10361
[mk-quant] #10366 internal_ens__g1!matrix.traits.MatrixMut.set_zero._definition 10 #10365 #10364
[attach-var-names] #10366 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[attach-meaning] #365 arith (- 1)
[mk-app] #10367 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #10367 = #512 #516
[instance] 0x0 #10367
[attach-enode] #10367 0
[end-of-instance]
[mk-app] #10367 <= #10109 #186
[mk-app] #10368 not #10367
[inst-discovered] theory-solving 0x0 arith# ; #10314
[mk-app] #10369 = #10314 #10368
[instance] 0x0 #10369
[attach-enode] #10369 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10369 * #365 #186
[mk-app] #10370 + #10369 #10109
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10367
[mk-app] #10369 = #10367 #10329
[instance] 0x0 #10369
[attach-enode] #10369 0
[end-of-instance]
[mk-app] #10369 or #10333 #10318
[mk-app] #10370 => #10332 #10318
[inst-discovered] theory-solving 0x0 basic# ; #10370
[mk-app] #10371 = #10370 #10369
[instance] 0x0 #10371
[attach-enode] #10371 0
[end-of-instance]
[mk-app] #10370 => #185 #10369
[inst-discovered] theory-solving 0x0 basic# ; #10370
[mk-app] #10371 = #10370 #10335
[instance] 0x0 #10371
[attach-enode] #10371 0
[end-of-instance]
[mk-quant] #10369 user_g1__matrix__traits__MatrixMut__set_zero_0 1 #10321 #10335
[attach-var-names] #10369 (|q$| ; |Poly|)
[mk-app] #10367 and #10313 #10369
[mk-app] #10368 = #10361 #10367
[mk-quant] #10370 internal_ens__g1!matrix.traits.MatrixMut.set_zero._definition 10 #10365 #10368
[attach-var-names] #10370 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10371 req%g1!matrix.traits.MatrixMut.set_symmetric. #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #63 #43 #32 #33
[mk-app] #10372 %%global_location_label%%40
[mk-app] #10373 => #10372 #10116
[mk-app] #10374 %%global_location_label%%41
[mk-app] #10375 => #10374 #10126
[mk-app] #10376 %%global_location_label%%42
[mk-app] #10377 < #666 #9630
[mk-app] #10378 => #10376 #10377
[mk-app] #10379 %%global_location_label%%43
[mk-app] #10380 < #676 #9998
[mk-app] #10381 => #10379 #10380
[mk-app] #10382 %%global_location_label%%44
[mk-app] #10383 => #10382 #10133
[mk-app] #10384 and #10373 #10375 #10378 #10381 #10383
[mk-app] #10385 = #10371 #10384
[mk-app] #10386 pattern #10371
[mk-quant] #10387 internal_req__g1!matrix.traits.MatrixMut.set_symmetric._definition 12 #10386 #10385
[attach-var-names] #10387 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10388 <= #9998 #666
[mk-app] #10389 not #10388
[inst-discovered] theory-solving 0x0 arith# ; #10116
[mk-app] #10390 = #10116 #10389
[instance] 0x0 #10390
[attach-enode] #10390 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10390 + #5372 #9998
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10388
[mk-app] #10390 = #10388 #10141
[instance] 0x0 #10390
[attach-enode] #10390 0
[end-of-instance]
[mk-app] #10390 not #10372
[mk-app] #10391 or #10390 #10143
[mk-app] #10392 => #10372 #10143
[inst-discovered] theory-solving 0x0 basic# ; #10392
[mk-app] #10393 = #10392 #10391
[instance] 0x0 #10393
[attach-enode] #10393 0
[end-of-instance]
[mk-app] #10392 <= #9630 #676
[mk-app] #10393 not #10392
[inst-discovered] theory-solving 0x0 arith# ; #10126
[mk-app] #10394 = #10126 #10393
[instance] 0x0 #10394
[attach-enode] #10394 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10394 + #5268 #9630
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10392
[mk-app] #10394 = #10392 #10148
[instance] 0x0 #10394
[attach-enode] #10394 0
[end-of-instance]
[mk-app] #10394 not #10374
[mk-app] #10395 or #10394 #10150
[mk-app] #10396 => #10374 #10150
[inst-discovered] theory-solving 0x0 basic# ; #10396
[mk-app] #10397 = #10396 #10395
[instance] 0x0 #10397
[attach-enode] #10397 0
[end-of-instance]
[mk-app] #10396 <= #9630 #666
[mk-app] #10397 not #10396
[inst-discovered] theory-solving 0x0 arith# ; #10377
[mk-app] #10398 = #10377 #10397
[instance] 0x0 #10398
[attach-enode] #10398 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10398 + #5372 #9630
[attach-meaning] #365 arith (- 1)
[mk-app] #10399 + #666 #10075
[mk-app] #10398 >= #10399 #336
[inst-discovered] theory-solving 0x0 arith# ; #10396
[mk-app] #10400 = #10396 #10398
[instance] 0x0 #10400
[attach-enode] #10400 0
[end-of-instance]
[mk-app] #10400 not #10398
[mk-app] #10401 not #10376
[mk-app] #10402 or #10401 #10400
[mk-app] #10403 => #10376 #10400
[inst-discovered] theory-solving 0x0 basic# ; #10403
[mk-app] #10404 = #10403 #10402
[instance] 0x0 #10404
[attach-enode] #10404 0
[end-of-instance]
[mk-app] #10403 <= #9998 #676
[mk-app] #10404 not #10403
[inst-discovered] theory-solving 0x0 arith# ; #10380
[mk-app] #10405 = #10380 #10404
[instance] 0x0 #10405
[attach-enode] #10405 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10405 + #5268 #9998
[attach-meaning] #365 arith (- 1)
[mk-app] #10406 + #676 #10020
[mk-app] #10405 >= #10406 #336
[inst-discovered] theory-solving 0x0 arith# ; #10403
[mk-app] #10407 = #10403 #10405
[instance] 0x0 #10407
[attach-enode] #10407 0
[end-of-instance]
[mk-app] #10407 not #10405
[mk-app] #10408 not #10379
[mk-app] #10409 or #10408 #10407
[mk-app] #10410 => #10379 #10407
[inst-discovered] theory-solving 0x0 basic# ; #10410
[mk-app] #10411 = #10410 #10409
[instance] 0x0 #10411
[attach-enode] #10411 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10133
[mk-app] #10410 = #10133 #10155
[instance] 0x0 #10410
[attach-enode] #10410 0
[end-of-instance]
[mk-app] #10410 not #10382
[mk-app] #10411 or #10410 #10155
[mk-app] #10412 => #10382 #10155
[inst-discovered] theory-solving 0x0 basic# ; #10412
[mk-app] #10413 = #10412 #10411
[instance] 0x0 #10413
[attach-enode] #10413 0
[end-of-instance]
[mk-app] #10412 and #10391 #10395 #10402 #10409 #10411
[mk-app] #10413 = #10371 #10412
[mk-quant] #10414 internal_req__g1!matrix.traits.MatrixMut.set_symmetric._definition 12 #10386 #10413
[attach-var-names] #10414 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10403 ens%g1!matrix.traits.MatrixMut.set_symmetric. #9679 #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #63 #43 #32 #33
[mk-app] #10404 g1!g.ix.? #32 #43 #9696
[mk-app] #10396 I #10404
[mk-app] #10397 vstd!seq.Seq.update.? #1592 #1573 #10140 #10396 #33
[mk-app] #10392 = #10139 #10397
[mk-app] #10393 = #10403 #10392
[mk-app] #10388 pattern #10403
[mk-quant] #10389 internal_ens__g1!matrix.traits.MatrixMut.set_symmetric._definition 13 #10388 #10393
[attach-var-names] #10389 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10415 fuel_bool_default #1293
[mk-var] #10416 7
[mk-var] #10417 6
[mk-app] #10418 %%lambda%%3 #10416 #10417 #1592 #1573 #63 #64 #65
[mk-app] #10419 %%apply%%0 #10418 #33
[mk-app] #10420 g1!g.ix.? #10416 #33 #10417
[mk-app] #10421 I #10420
[mk-app] #10422 vstd!seq.Seq.index.? #1592 #1573 #63 #10421
[mk-app] #10423 g1!g.MatrixDataTypeBase.val.? #64 #65 #10422
[mk-app] #10424 = #10419 #10423
[mk-app] #10425 pattern #10419
[mk-quant] #10426 k!16473 8 #10425 #10424
[attach-var-names] #10426 (|j$| ; |Poly|) (|%%hole%%6| ; |Type|) (|%%hole%%5| ; |Dcr|) (|%%hole%%4| ; |Poly|) (|%%hole%%3| ; |Type|) (|%%hole%%2| ; |Dcr|) (|%%hole%%1| ; |Poly|) (|%%hole%%0| ; |Poly|)
[mk-var] #10427 9
[mk-app] #10428 %%lambda%%4 #10427 #9580 #9581 #10417 #1592 #1573 #1593 #263 #32
[mk-app] #10429 %%apply%%0 #10428 #33
[mk-app] #10430 %%lambda%%3 #33 #10427 #9580 #9581 #10417 #1592 #1573
[mk-app] #10431 mk_fun #10430
[mk-app] #10432 Poly%fun%1. #10431
[mk-app] #10433 vstd!seq.Seq.new.? #1593 #263 #32 #10432
[mk-app] #10434 = #10429 #10433
[mk-app] #10435 pattern #10429
[mk-quant] #10436 k!16489 10 #10435 #10434
[attach-var-names] #10436 (|i$| ; |Poly|) (|%%hole%%8| ; |Poly|) (|%%hole%%7| ; |Type|) (|%%hole%%6| ; |Dcr|) (|%%hole%%5| ; |Type|) (|%%hole%%4| ; |Dcr|) (|%%hole%%3| ; |Poly|) (|%%hole%%2| ; |Type|) (|%%hole%%1| ; |Dcr|) (|%%hole%%0| ; |Poly|)
[mk-app] #10437 fuel_bool #1293
[mk-app] #10438 g1!g.mx.? #1560 #1561 #43 #32 #33
[mk-app] #10439 nClip #676
[mk-app] #10440 I #10439
[mk-app] #10441 nClip #186
[mk-app] #10442 I #10441
[mk-app] #10443 %%lambda%%4 #33 #1560 #1561 #43 #1560 #1561 #120 #140 #10442
[mk-app] #10444 mk_fun #10443
[mk-app] #10445 Poly%fun%1. #10444
[mk-app] #10446 vstd!seq.Seq.new.? #120 #2056 #10440 #10445
[mk-app] #10447 %Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #10446
[mk-app] #10448 = #10438 #10447
[mk-app] #10449 pattern #10438
[mk-quant] #10450 internal_g1!g.mx.?_definition 5 #10449 #10448
[attach-var-names] #10450 (|c!| ; |Poly|) (|r!| ; |Poly|) (|d!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10451 => #10437 #10450
[mk-app] #10452 not #10437
[mk-app] #10453 or #10452 #10450
[inst-discovered] theory-solving 0x0 basic# ; #10451
[mk-app] #10454 = #10451 #10453
[instance] 0x0 #10454
[attach-enode] #10454 0
[end-of-instance]
[mk-app] #10454 fuel_bool_default #1298
[mk-app] #10455 %%lambda%%5 #1615 #1616 #5623 #1593 #263 #32
[mk-app] #10456 %%apply%%0 #10455 #33
[mk-app] #10457 vstd!seq.Seq.index.? #1615 #1616 #5623 #33
[mk-app] #10458 %R #10457
[mk-app] #10459 %R #5208
[mk-app] #10460 RAdd #10458 #10459
[mk-app] #10461 R #10460
[mk-app] #10462 = #10456 #10461
[mk-app] #10463 pattern #10456
[mk-quant] #10464 k!16519 7 #10463 #10462
[attach-var-names] #10464 (|j$| ; |Poly|) (|%%hole%%5| ; |Poly|) (|%%hole%%4| ; |Type|) (|%%hole%%3| ; |Dcr|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-var] #10465 11
[mk-var] #10466 8
[mk-app] #10467 %%lambda%%6 #9850 #9851 #10465 #9651 #9652 #10466 #3199 #1621 #1592 #1573 #1593 #263 #32
[mk-app] #10468 %%apply%%0 #10467 #33
[mk-app] #10469 vstd!seq.Seq.index.? #9850 #9851 #10465 #33
[mk-app] #10470 vstd!seq.Seq.index.? #9651 #9652 #10466 #33
[mk-app] #10471 %%lambda%%5 #3199 #1621 #10469 #1592 #1573 #10470
[mk-app] #10472 mk_fun #10471
[mk-app] #10473 Poly%fun%1. #10472
[mk-app] #10474 vstd!seq.Seq.new.? #1593 #263 #32 #10473
[mk-app] #10475 = #10468 #10474
[mk-app] #10476 pattern #10468
[mk-quant] #10477 k!16539 14 #10476 #10475
[attach-var-names] #10477 (|i$| ; |Poly|) (|%%hole%%12| ; |Poly|) (|%%hole%%11| ; |Type|) (|%%hole%%10| ; |Dcr|) (|%%hole%%9| ; |Type|) (|%%hole%%8| ; |Dcr|) (|%%hole%%7| ; |Type|) (|%%hole%%6| ; |Dcr|) (|%%hole%%5| ; |Poly|) (|%%hole%%4| ; |Type|) (|%%hole%%3| ; |Dcr|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #10478 fuel_bool #1298
[mk-app] #10479 g1!g.madd.? #63 #43 #32 #33
[mk-app] #10480 %%lambda%%6 #120 #2056 #63 #120 #2056 #43 #120 #140 #120 #140 #120 #140 #10442
[mk-app] #10481 mk_fun #10480
[mk-app] #10482 Poly%fun%1. #10481
[mk-app] #10483 vstd!seq.Seq.new.? #120 #2056 #10440 #10482
[mk-app] #10484 %Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #10483
[mk-app] #10485 = #10479 #10484
[mk-app] #10486 pattern #10479
[mk-quant] #10487 internal_g1!g.madd.?_definition 4 #10486 #10485
[attach-var-names] #10487 (|c!| ; |Poly|) (|r!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|)
[mk-app] #10488 => #10478 #10487
[mk-app] #10489 not #10478
[mk-app] #10490 or #10489 #10487
[inst-discovered] theory-solving 0x0 basic# ; #10488
[mk-app] #10491 = #10488 #10490
[instance] 0x0 #10491
[attach-enode] #10491 0
[end-of-instance]
[mk-app] #10491 ens%core!iter.traits.collect.impl&%0.into_iter. #1593 #263 #32 #33
[mk-app] #10492 = #33 #32
[mk-app] #10493 and #8606 #10492
[mk-app] #10494 = #10491 #10493
[mk-app] #10495 pattern #10491
[mk-quant] #10496 internal_ens__core!iter.traits.collect.impl&__0.into_iter._definition 4 #10495 #10494
[attach-var-names] #10496 (|r!| ; |Poly|) (|i!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10497 fuel_bool_default #879
[mk-app] #10498 fuel_bool #879
[mk-app] #10499 vstd!std_specs.iter.impl&%11.index.? #64 #65 #33
[mk-app] #10500 = #10499 #2720
[mk-app] #10501 pattern #10499
[mk-quant] #10502 internal_vstd!std_specs.iter.impl&__11.index.?_definition 3 #10501 #10500
[attach-var-names] #10502 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10503 => #10498 #10502
[mk-app] #10504 not #10498
[mk-app] #10505 or #10504 #10502
[inst-discovered] theory-solving 0x0 basic# ; #10503
[mk-app] #10506 = #10503 #10505
[instance] 0x0 #10506
[attach-enode] #10506 0
[end-of-instance]
[mk-app] #10506 fuel_bool_default #878
[mk-app] #10507 fuel_bool #878
[mk-app] #10508 vstd!std_specs.iter.impl&%11.seq.? #64 #65 #33
[mk-app] #10509 vstd!std_specs.iter.IteratorSpec.remaining.? #64 #65 #2243
[mk-app] #10510 = #10508 #10509
[mk-app] #10511 pattern #10508
[mk-quant] #10512 internal_vstd!std_specs.iter.impl&__11.seq.?_definition 3 #10511 #10510
[attach-var-names] #10512 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10513 => #10507 #10512
[mk-app] #10514 not #10507
[mk-app] #10515 or #10514 #10512
[inst-discovered] theory-solving 0x0 basic# ; #10513
[mk-app] #10516 = #10513 #10515
[instance] 0x0 #10516
[attach-enode] #10516 0
[end-of-instance]
[mk-app] #10516 has_type #10508 #2270
[mk-app] #10517 => #2206 #10516
[mk-quant] #10518 internal_vstd!std_specs.iter.impl&__11.seq.?_pre_post_definition 3 #10511 #10517
[attach-var-names] #10518 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10519 or #2213 #10516
[inst-discovered] theory-solving 0x0 basic# ; #10517
[mk-app] #10520 = #10517 #10519
[instance] 0x0 #10520
[attach-enode] #10520 0
[end-of-instance]
[mk-quant] #10520 internal_vstd!std_specs.iter.impl&__11.seq.?_pre_post_definition 3 #10511 #10519
[attach-var-names] #10520 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10521 fuel_bool_default #880
[mk-app] #10522 fuel_bool #880
[mk-app] #10523 vstd!std_specs.iter.impl&%11.wf.? #64 #65 #33
[mk-app] #10524 vstd!seq.Seq.len.? #2268 #2269 #10508
[mk-app] #10525 <= #336 #10499
[mk-app] #10526 <= #10499 #10524
[mk-app] #10527 and #10525 #10526
[mk-app] #10528 vstd!std_specs.iter.impl&%11.wf_inner.? #64 #65 #33
[mk-app] #10529 and #10527 #10528
[mk-app] #10530 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #64 #65 #2255
[mk-app] #10531 %B #10530
[mk-app] #10532 vstd!seq.Seq.len.? #2268 #2269 #2267
[mk-app] #10533 = #10532 #10499
[mk-app] #10534 vstd!std_specs.iter.impl&%11.index.? #1593 #263 #32
[mk-app] #10535 < #186 #10534
[mk-app] #10536 and #512 #10535
[mk-app] #10537 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #32
[mk-app] #10538 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #10537
[mk-app] #10539 vstd!seq.Seq.index.? #5076 #5085 #10538 #33
[mk-app] #10540 vstd!std_specs.iter.impl&%11.seq.? #1593 #263 #32
[mk-app] #10541 vstd!seq.Seq.index.? #5076 #5085 #10540 #33
[mk-app] #10542 = #10539 #10541
[mk-app] #10543 => #10536 #10542
[mk-app] #10544 => #185 #10543
[mk-app] #10545 pattern #10539
[mk-quant] #10546 user_vstd__std_specs__iter__impl&%11__wf_0 1 #10545 #10544
[attach-var-names] #10546 (|i$| ; |Poly|)
[mk-app] #10547 and #10533 #10546
[mk-app] #10548 => #10531 #10547
[mk-app] #10549 and #10529 #10548
[mk-app] #10550 = #10523 #10549
[mk-app] #10551 pattern #10523
[mk-quant] #10552 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #10551 #10550
[attach-var-names] #10552 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10553 => #10522 #10552
[attach-meaning] #365 arith (- 1)
[mk-app] #10554 * #365 #10499
[mk-app] #10555 >= #10499 #336
[inst-discovered] theory-solving 0x0 arith# ; #10525
[mk-app] #10554 = #10525 #10555
[instance] 0x0 #10554
[attach-enode] #10554 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10554 * #365 #10524
[mk-app] #10556 + #10499 #10554
[mk-app] #10557 <= #10556 #336
[inst-discovered] theory-solving 0x0 arith# ; #10526
[mk-app] #10558 = #10526 #10557
[instance] 0x0 #10558
[attach-enode] #10558 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10558 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #10558 = #512 #516
[instance] 0x0 #10558
[attach-enode] #10558 0
[end-of-instance]
[mk-app] #10558 <= #10534 #186
[mk-app] #10559 not #10558
[inst-discovered] theory-solving 0x0 arith# ; #10535
[mk-app] #10560 = #10535 #10559
[instance] 0x0 #10560
[attach-enode] #10560 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10560 * #365 #186
[mk-app] #10561 + #10560 #10534
[attach-meaning] #365 arith (- 1)
[mk-app] #10562 * #365 #10534
[mk-app] #10563 + #186 #10562
[mk-app] #10560 >= #10563 #336
[inst-discovered] theory-solving 0x0 arith# ; #10558
[mk-app] #10561 = #10558 #10560
[instance] 0x0 #10561
[attach-enode] #10561 0
[end-of-instance]
[mk-app] #10561 not #10560
[mk-app] #10564 and #516 #10561
[mk-app] #10565 not #10564
[mk-app] #10566 or #10565 #10542
[mk-app] #10567 => #10564 #10542
[inst-discovered] theory-solving 0x0 basic# ; #10567
[mk-app] #10568 = #10567 #10566
[instance] 0x0 #10568
[attach-enode] #10568 0
[end-of-instance]
[mk-app] #10567 or #192 #10565 #10542
[mk-app] #10568 => #185 #10566
[inst-discovered] theory-solving 0x0 basic# ; #10568
[mk-app] #10569 = #10568 #10567
[instance] 0x0 #10569
[attach-enode] #10569 0
[end-of-instance]
[mk-quant] #10566 user_vstd__std_specs__iter__impl&%11__wf_0 1 #10545 #10567
[attach-var-names] #10566 (|i$| ; |Poly|)
[mk-app] #10558 and #10533 #10566
[mk-app] #10559 not #10531
[mk-app] #10568 or #10559 #10558
[mk-app] #10569 => #10531 #10558
[inst-discovered] theory-solving 0x0 basic# ; #10569
[mk-app] #10570 = #10569 #10568
[instance] 0x0 #10570
[attach-enode] #10570 0
[end-of-instance]
[mk-app] #10569 and #10555 #10557 #10528 #10568
[mk-app] #10570 = #10523 #10569
[mk-quant] #10571 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #10551 #10570
[attach-var-names] #10571 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10572 not #10522
[mk-app] #10573 or #10572 #10571
[mk-app] #10574 => #10522 #10571
[inst-discovered] theory-solving 0x0 basic# ; #10574
[mk-app] #10575 = #10574 #10573
[instance] 0x0 #10575
[attach-enode] #10575 0
[end-of-instance]
[mk-app] #10574 ens%vstd!std_specs.iter.impl&%11.new. #1593 #263 #32 #2199
[mk-app] #10575 TYPE%vstd!std_specs.iter.VerusForLoopWrapper. #1593 #263
[mk-app] #10576 has_type #2200 #10575
[mk-app] #10577 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/index #2201
[mk-app] #10578 = #10577 #336
[mk-app] #10579 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #2201
[mk-app] #10580 = #10579 #32
[mk-app] #10581 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #2201
[mk-app] #10582 = #10581 #32
[mk-app] #10583 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #2201
[mk-app] #10584 vstd!seq.Seq.empty.? #5076 #5085
[mk-app] #10585 = #10583 #10584
[mk-app] #10586 vstd!std_specs.iter.impl&%11.wf.? #1593 #263 #2200
[mk-app] #10587 and #10576 #10578 #10580 #10582 #10585 #10586
[mk-app] #10588 = #10574 #10587
[mk-app] #10589 pattern #10574
[mk-quant] #10590 internal_ens__vstd!std_specs.iter.impl&__11.new._definition 4 #10589 #10588
[attach-var-names] #10590 (|s!| ; |vstd!std_specs.iter.VerusForLoopWrapper.|) (|iter!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10591 req%vstd!std_specs.iter.impl&%11.next. #64 #65 #33
[mk-app] #10592 %%global_location_label%%45
[mk-app] #10593 vstd!std_specs.iter.impl&%11.wf.? #64 #65 #2709
[mk-app] #10594 => #10592 #10593
[mk-app] #10595 = #10591 #10594
[mk-app] #10596 pattern #10591
[mk-quant] #10597 internal_req__vstd!std_specs.iter.impl&__11.next._definition 3 #10596 #10595
[attach-var-names] #10597 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10598 not #10592
[mk-app] #10599 or #10598 #10593
[inst-discovered] theory-solving 0x0 basic# ; #10594
[mk-app] #10600 = #10594 #10599
[instance] 0x0 #10600
[attach-enode] #10600 0
[end-of-instance]
[mk-app] #10600 = #10591 #10599
[mk-quant] #10601 internal_req__vstd!std_specs.iter.impl&__11.next._definition 3 #10596 #10600
[attach-var-names] #10601 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10602 ens%vstd!std_specs.iter.impl&%11.next. #1593 #263 #32 #2110
[mk-app] #10603 has_type #2111 #8055
[mk-app] #10604 vstd!std_specs.iter.impl&%11.seq.? #1593 #263 #40
[mk-app] #10605 vstd!std_specs.iter.impl&%11.seq.? #1593 #263 #5699
[mk-app] #10606 = #10604 #10605
[mk-app] #10607 vstd!std_specs.iter.impl&%11.index.? #1593 #263 #40
[mk-app] #10608 vstd!std_specs.iter.impl&%11.index.? #1593 #263 #5699
[mk-app] #10609 if #2142 #291 #336
[mk-app] #10610 Add #10608 #10609
[mk-app] #10611 = #10607 #10610
[mk-app] #10612 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #40
[mk-app] #10613 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #10612
[mk-app] #10614 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #5699
[mk-app] #10615 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #10614
[mk-app] #10616 = #10613 #10615
[mk-app] #10617 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #10612
[mk-app] #10618 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #1593 #263 #10617
[mk-app] #10619 %B #10618
[mk-app] #10620 vstd!std_specs.iter.impl&%11.wf.? #1593 #263 #40
[mk-app] #10621 => #10619 #10620
[mk-app] #10622 is-core!option.Option./None #2110
[mk-app] #10623 and #10619 #10622
[mk-app] #10624 vstd!std_specs.iter.IteratorSpec.will_return_none.? #1593 #263 #10613
[mk-app] #10625 %B #10624
[mk-app] #10626 vstd!seq.Seq.len.? #5076 #5085 #10604
[mk-app] #10627 = #10607 #10626
[mk-app] #10628 and #10625 #10627
[mk-app] #10629 => #10623 #10628
[mk-app] #10630 core!option.Option./Some/0 #5076 #5085 #2112
[mk-app] #10631 I #10608
[mk-app] #10632 vstd!seq.Seq.index.? #5076 #5085 #10605 #10631
[mk-app] #10633 = #10630 #10632
[mk-app] #10634 => #2142 #10633
[mk-app] #10635 => #10619 #10634
[mk-app] #10636 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #10612
[mk-app] #10637 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #10614
[mk-app] #10638 vstd!seq.Seq.push.? #5076 #5085 #10637 #10630
[mk-app] #10639 = #10636 #10638
[mk-app] #10640 => #2142 #10639
[mk-app] #10641 = #10636 #10637
[mk-app] #10642 => #10622 #10641
[mk-app] #10643 has_type #33 #5716
[mk-app] #10644 FNDEF%core!iter.traits.iterator.Iterator.next. #1560 #1561
[mk-app] #10645 TYPE%tuple%1. #120 #5716
[mk-var] #10646 1
[mk-app] #10647 Poly%core!option.Option. #10646
[mk-app] #10648 closure_ens #10644 #5143 #10645 #6328 #2538 #10647
[mk-app] #10649 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #48
[mk-app] #10650 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #10649
[mk-app] #10651 = #2709 #10650
[mk-app] #10652 and #10648 #10651
[mk-app] #10653 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #56
[mk-app] #10654 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #10653
[mk-app] #10655 = #2710 #10654
[mk-app] #10656 and #10652 #10655
[mk-app] #10657 and #10643 #10656
[mk-app] #10658 pattern #2709
[mk-app] #10659 pattern #2710
[mk-quant] #10660 user_vstd__std_specs__iter__impl&%11__next_0 1 #10658 #10659 #10657
[attach-var-names] #10660 (|m$| ; |Poly|)
[mk-app] #10661 and #10603 #10606 #10611 #10616 #10621 #10629 #10635 #10640 #10642 #10660
[mk-app] #10662 = #10602 #10661
[mk-app] #10663 pattern #10602
[mk-quant] #10664 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #10663 #10662
[attach-var-names] #10664 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #2142
[mk-app] #10665 = #2142 #2149
[instance] 0x0 #10665
[attach-enode] #10665 0
[end-of-instance]
[mk-app] #10665 if #2149 #291 #336
[mk-app] #10666 Add #10608 #10665
[mk-app] #10667 = #10607 #10666
[mk-app] #10668 not #10619
[mk-app] #10669 or #10668 #10620
[inst-discovered] theory-solving 0x0 basic# ; #10621
[mk-app] #10670 = #10621 #10669
[instance] 0x0 #10670
[attach-enode] #10670 0
[end-of-instance]
[mk-app] #10670 is #2110
[inst-discovered] theory-solving 0x0 datatype# ; #10622
[mk-app] #10671 = #10622 #10670
[instance] 0x0 #10671
[attach-enode] #10671 0
[end-of-instance]
[mk-app] #10671 and #10619 #10670
[mk-app] #10672 not #10671
[mk-app] #10673 or #10672 #10628
[mk-app] #10674 => #10671 #10628
[inst-discovered] theory-solving 0x0 basic# ; #10674
[mk-app] #10675 = #10674 #10673
[instance] 0x0 #10675
[attach-enode] #10675 0
[end-of-instance]
[mk-app] #10674 or #2150 #10633
[mk-app] #10675 => #2149 #10633
[inst-discovered] theory-solving 0x0 basic# ; #10675
[mk-app] #10676 = #10675 #10674
[instance] 0x0 #10676
[attach-enode] #10676 0
[end-of-instance]
[mk-app] #10675 or #10668 #2150 #10633
[mk-app] #10676 => #10619 #10674
[inst-discovered] theory-solving 0x0 basic# ; #10676
[mk-app] #10677 = #10676 #10675
[instance] 0x0 #10677
[attach-enode] #10677 0
[end-of-instance]
[mk-app] #10674 or #2150 #10639
[mk-app] #10676 => #2149 #10639
[inst-discovered] theory-solving 0x0 basic# ; #10676
[mk-app] #10677 = #10676 #10674
[instance] 0x0 #10677
[attach-enode] #10677 0
[end-of-instance]
[mk-app] #10676 not #10670
[mk-app] #10677 or #10676 #10641
[mk-app] #10678 => #10670 #10641
[inst-discovered] theory-solving 0x0 basic# ; #10678
[mk-app] #10679 = #10678 #10677
[instance] 0x0 #10679
[attach-enode] #10679 0
[end-of-instance]
[mk-app] #10678 and #10643 #10648 #10651 #10655
[mk-quant] #10679 user_vstd__std_specs__iter__impl&%11__next_0 1 #10658 #10659 #10678
[attach-var-names] #10679 (|m$| ; |Poly|)
[mk-app] #10680 and #10603 #10606 #10667 #10616 #10669 #10673 #10675 #10674 #10677 #10679
[mk-app] #10681 = #10602 #10680
[mk-quant] #10682 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #10663 #10681
[attach-var-names] #10682 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10683 fuel_bool_default #881
[mk-app] #10684 fuel_bool #881
[mk-app] #10685 vstd!std_specs.iter.trigger_peek_implications.? #64 #65 #33
[mk-app] #10686 = #10685 #1
[mk-app] #10687 pattern #10685
[mk-quant] #10688 internal_vstd!std_specs.iter.trigger_peek_implications.?_definition 3 #10687 #10686
[attach-var-names] #10688 (|x!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10689 => #10684 #10688
[inst-discovered] theory-solving 0x0 basic# ; #10686
[mk-app] #10690 = #10686 #10685
[instance] 0x0 #10690
[attach-enode] #10690 0
[end-of-instance]
[mk-quant] #10690 internal_vstd!std_specs.iter.trigger_peek_implications.?_definition 3 #10687 #10685
[attach-var-names] #10690 (|x!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10691 not #10684
[mk-app] #10692 or #10691 #10690
[mk-app] #10693 => #10684 #10690
[inst-discovered] theory-solving 0x0 basic# ; #10693
[mk-app] #10694 = #10693 #10692
[instance] 0x0 #10694
[attach-enode] #10694 0
[end-of-instance]
[mk-app] #10693 fuel_bool_default #1118
[mk-app] #10694 fuel_bool #1118
[mk-app] #10695 vstd!std_specs.option.spec_unwrap_or.? #1593 #263 #32 #33
[mk-app] #10696 core!option.Option./Some/0 #1593 #263 #2171
[mk-app] #10697 if #2185 #10696 #33
[mk-app] #10698 = #10695 #10697
[mk-app] #10699 pattern #10695
[mk-quant] #10700 internal_vstd!std_specs.option.spec_unwrap_or.?_definition 4 #10699 #10698
[attach-var-names] #10700 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10701 => #10694 #10700
[inst-discovered] theory-solving 0x0 datatype# ; #2185
[mk-app] #10702 = #2185 #2193
[instance] 0x0 #10702
[attach-enode] #10702 0
[end-of-instance]
[mk-app] #10702 if #2193 #10696 #33
[mk-app] #10703 = #10695 #10702
[mk-quant] #10704 internal_vstd!std_specs.option.spec_unwrap_or.?_definition 4 #10699 #10703
[attach-var-names] #10704 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10705 not #10694
[mk-app] #10706 or #10705 #10704
[mk-app] #10707 => #10694 #10704
[inst-discovered] theory-solving 0x0 basic# ; #10707
[mk-app] #10708 = #10707 #10706
[instance] 0x0 #10708
[attach-enode] #10708 0
[end-of-instance]
[mk-app] #10707 has_type #32 #6470
[mk-app] #10708 and #10707 #2315
[mk-app] #10709 has_type #10695 #263
[mk-app] #10710 => #10708 #10709
[mk-quant] #10711 internal_vstd!std_specs.option.spec_unwrap_or.?_pre_post_definition 4 #10699 #10710
[attach-var-names] #10711 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10712 not #10708
[mk-app] #10713 or #10712 #10709
[inst-discovered] theory-solving 0x0 basic# ; #10710
[mk-app] #10714 = #10710 #10713
[instance] 0x0 #10714
[attach-enode] #10714 0
[end-of-instance]
[mk-quant] #10714 internal_vstd!std_specs.option.spec_unwrap_or.?_pre_post_definition 4 #10699 #10713
[attach-var-names] #10714 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10715 vstd!pervasive.arbitrary.? #44 #45
[mk-app] #10716 has_type #10715 #45
[mk-app] #10717 pattern #10715
[mk-quant] #10718 internal_vstd!pervasive.arbitrary.?_pre_post_definition 2 #10717 #10716
[attach-var-names] #10718 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10719 => #4661 #2910
[mk-quant] #10720 internal_core__iter__traits__collect__impl&__0_trait_impl_definition 2 #2925 #10719
[attach-var-names] #10720 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10721 or #4666 #2910
[inst-discovered] theory-solving 0x0 basic# ; #10719
[mk-app] #10722 = #10719 #10721
[instance] 0x0 #10722
[attach-enode] #10722 0
[end-of-instance]
[mk-quant] #10722 internal_core__iter__traits__collect__impl&__0_trait_impl_definition 2 #2925 #10721
[attach-var-names] #10722 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10723 req%g1!matrix.traits.MatrixMut.add_inplace_a. #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #10724 %%global_location_label%%46
[mk-app] #10725 g1!matrix.row_major.RowMajorSequentialData.data.? #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #5699
[mk-app] #10726 vstd!seq.Seq.len.? #1592 #1573 #10725
[mk-app] #10727 <= #10129 #10726
[mk-app] #10728 => #10724 #10727
[mk-app] #10729 %%global_location_label%%47
[mk-app] #10730 g1!matrix.row_major.RowMajorSequentialData.data.? #1593 #263 #9599 #9597 #3199 #1621 #1592 #1573 #33
[mk-app] #10731 vstd!seq.Seq.len.? #1592 #1573 #10730
[mk-app] #10732 <= #10129 #10731
[mk-app] #10733 => #10729 #10732
[mk-app] #10734 and #10728 #10733
[mk-app] #10735 = #10723 #10734
[mk-app] #10736 pattern #10723
[mk-quant] #10737 internal_req__g1!matrix.traits.MatrixMut.add_inplace_a._definition 12 #10736 #10735
[attach-var-names] #10737 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #10738 * #365 #10726
[mk-app] #10739 + #10129 #10738
[mk-app] #10740 <= #10739 #336
[inst-discovered] theory-solving 0x0 arith# ; #10727
[mk-app] #10741 = #10727 #10740
[instance] 0x0 #10741
[attach-enode] #10741 0
[end-of-instance]
[mk-app] #10741 not #10724
[mk-app] #10742 or #10741 #10740
[mk-app] #10743 => #10724 #10740
[inst-discovered] theory-solving 0x0 basic# ; #10743
[mk-app] #10744 = #10743 #10742
[instance] 0x0 #10744
[attach-enode] #10744 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10743 * #365 #10731
[mk-app] #10744 + #10129 #10743
[mk-app] #10745 <= #10744 #336
[inst-discovered] theory-solving 0x0 arith# ; #10732
[mk-app] #10746 = #10732 #10745
[instance] 0x0 #10746
[attach-enode] #10746 0
[end-of-instance]
[mk-app] #10746 not #10729
[mk-app] #10747 or #10746 #10745
[mk-app] #10748 => #10729 #10745
[inst-discovered] theory-solving 0x0 basic# ; #10748
[mk-app] #10749 = #10748 #10747
[instance] 0x0 #10749
[attach-enode] #10749 0
[end-of-instance]
[mk-app] #10748 and #10742 #10747
[mk-app] #10749 = #10723 #10748
[mk-quant] #10750 internal_req__g1!matrix.traits.MatrixMut.add_inplace_a._definition 12 #10736 #10749
[attach-var-names] #10750 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10751 ens%g1!matrix.traits.MatrixMut.add_inplace_a. #9679 #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #10752 g1!matrix.row_major.RowMajorSequentialData.data.? #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #40
[mk-app] #10753 I #9998
[mk-app] #10754 g1!g.mx.? #1592 #1573 #10752 #10753 #9696
[mk-app] #10755 g1!g.mx.? #1592 #1573 #10725 #10753 #9696
[mk-app] #10756 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #10755
[mk-app] #10757 g1!g.mx.? #1592 #1573 #10730 #10753 #9696
[mk-app] #10758 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #10757
[mk-app] #10759 g1!g.madd.? #10756 #10758 #10753 #9696
[mk-app] #10760 = #10754 #10759
[mk-app] #10761 I #10129
[mk-app] #10762 g1!g.frame.? #1592 #1573 #10725 #10752 #10761
[mk-app] #10763 and #10760 #10762
[mk-app] #10764 = #10751 #10763
[mk-app] #10765 pattern #10751
[mk-quant] #10766 internal_ens__g1!matrix.traits.MatrixMut.add_inplace_a._definition 13 #10765 #10764
[attach-var-names] #10766 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10767 fuel_bool_default #1299
[mk-app] #10768 %%lambda%%7 #1615 #1616 #5623 #1593 #263 #32
[mk-app] #10769 %%apply%%0 #10768 #33
[mk-app] #10770 RSub #10458 #10459
[mk-app] #10771 R #10770
[mk-app] #10772 = #10769 #10771
[mk-app] #10773 pattern #10769
[mk-quant] #10774 k!16994 7 #10773 #10772
[attach-var-names] #10774 (|j$| ; |Poly|) (|%%hole%%5| ; |Poly|) (|%%hole%%4| ; |Type|) (|%%hole%%3| ; |Dcr|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #10775 %%lambda%%8 #9850 #9851 #10465 #9651 #9652 #10466 #3199 #1621 #1592 #1573 #1593 #263 #32
[mk-app] #10776 %%apply%%0 #10775 #33
[mk-app] #10777 %%lambda%%7 #3199 #1621 #10469 #1592 #1573 #10470
[mk-app] #10778 mk_fun #10777
[mk-app] #10779 Poly%fun%1. #10778
[mk-app] #10780 vstd!seq.Seq.new.? #1593 #263 #32 #10779
[mk-app] #10781 = #10776 #10780
[mk-app] #10782 pattern #10776
[mk-quant] #10783 k!17014 14 #10782 #10781
[attach-var-names] #10783 (|i$| ; |Poly|) (|%%hole%%12| ; |Poly|) (|%%hole%%11| ; |Type|) (|%%hole%%10| ; |Dcr|) (|%%hole%%9| ; |Type|) (|%%hole%%8| ; |Dcr|) (|%%hole%%7| ; |Type|) (|%%hole%%6| ; |Dcr|) (|%%hole%%5| ; |Poly|) (|%%hole%%4| ; |Type|) (|%%hole%%3| ; |Dcr|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #10784 fuel_bool #1299
[mk-app] #10785 g1!g.msub.? #63 #43 #32 #33
[mk-app] #10786 %%lambda%%8 #120 #2056 #63 #120 #2056 #43 #120 #140 #120 #140 #120 #140 #10442
[mk-app] #10787 mk_fun #10786
[mk-app] #10788 Poly%fun%1. #10787
[mk-app] #10789 vstd!seq.Seq.new.? #120 #2056 #10440 #10788
[mk-app] #10790 %Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #10789
[mk-app] #10791 = #10785 #10790
[mk-app] #10792 pattern #10785
[mk-quant] #10793 internal_g1!g.msub.?_definition 4 #10792 #10791
[attach-var-names] #10793 (|c!| ; |Poly|) (|r!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|)
[mk-app] #10794 => #10784 #10793
[mk-app] #10795 not #10784
[mk-app] #10796 or #10795 #10793
[inst-discovered] theory-solving 0x0 basic# ; #10794
[mk-app] #10797 = #10794 #10796
[instance] 0x0 #10797
[attach-enode] #10797 0
[end-of-instance]
[mk-app] #10797 req%g1!matrix.traits.MatrixMut.sub_inplace_a. #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #10798 %%global_location_label%%48
[mk-app] #10799 => #10798 #10727
[mk-app] #10800 %%global_location_label%%49
[mk-app] #10801 => #10800 #10732
[mk-app] #10802 and #10799 #10801
[mk-app] #10803 = #10797 #10802
[mk-app] #10804 pattern #10797
[mk-quant] #10805 internal_req__g1!matrix.traits.MatrixMut.sub_inplace_a._definition 12 #10804 #10803
[attach-var-names] #10805 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10727
[mk-app] #10806 = #10727 #10740
[instance] 0x0 #10806
[attach-enode] #10806 0
[end-of-instance]
[mk-app] #10806 not #10798
[mk-app] #10807 or #10806 #10740
[mk-app] #10808 => #10798 #10740
[inst-discovered] theory-solving 0x0 basic# ; #10808
[mk-app] #10809 = #10808 #10807
[instance] 0x0 #10809
[attach-enode] #10809 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10732
[mk-app] #10808 = #10732 #10745
[instance] 0x0 #10808
[attach-enode] #10808 0
[end-of-instance]
[mk-app] #10808 not #10800
[mk-app] #10809 or #10808 #10745
[mk-app] #10810 => #10800 #10745
[inst-discovered] theory-solving 0x0 basic# ; #10810
[mk-app] #10811 = #10810 #10809
[instance] 0x0 #10811
[attach-enode] #10811 0
[end-of-instance]
[mk-app] #10810 and #10807 #10809
[mk-app] #10811 = #10797 #10810
[mk-quant] #10812 internal_req__g1!matrix.traits.MatrixMut.sub_inplace_a._definition 12 #10804 #10811
[attach-var-names] #10812 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10813 ens%g1!matrix.traits.MatrixMut.sub_inplace_a. #9679 #9680 #9671 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #10814 g1!g.msub.? #10756 #10758 #10753 #9696
[mk-app] #10815 = #10754 #10814
[mk-app] #10816 and #10815 #10762
[mk-app] #10817 = #10813 #10816
[mk-app] #10818 pattern #10813
[mk-quant] #10819 internal_ens__g1!matrix.traits.MatrixMut.sub_inplace_a._definition 13 #10818 #10817
[attach-var-names] #10819 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #10820 fuel_bool_default #1294
[mk-app] #10821 fuel_bool #1294
[mk-app] #10822 g1!g.is_mx.? #43 #32 #33
[mk-app] #10823 vstd!seq.Seq.len.? #120 #2056 #43
[mk-app] #10824 = #10823 #676
[mk-app] #10825 vstd!seq.Seq.index.? #120 #2056 #63 #33
[mk-app] #10826 vstd!seq.Seq.len.? #120 #140 #10825
[mk-app] #10827 = #10826 #676
[mk-app] #10828 => #5358 #10827
[mk-app] #10829 => #185 #10828
[mk-app] #10830 pattern #10825
[mk-quant] #10831 user_g1__g__is_mx_0 1 #10830 #10829
[attach-var-names] #10831 (|i$| ; |Poly|)
[mk-app] #10832 and #10824 #10831
[mk-app] #10833 = #10822 #10832
[mk-app] #10834 pattern #10822
[mk-quant] #10835 internal_g1!g.is_mx.?_definition 3 #10834 #10833
[attach-var-names] #10835 (|c!| ; |Poly|) (|r!| ; |Poly|) (|a!| ; |Poly|)
[mk-app] #10836 => #10821 #10835
[attach-meaning] #365 arith (- 1)
[mk-app] #10837 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #10837 = #512 #516
[instance] 0x0 #10837
[attach-enode] #10837 0
[end-of-instance]
[mk-app] #10837 <= #666 #186
[mk-app] #10838 not #10837
[inst-discovered] theory-solving 0x0 arith# ; #5357
[mk-app] #10839 = #5357 #10838
[instance] 0x0 #10839
[attach-enode] #10839 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10839 * #365 #186
[mk-app] #10840 + #10839 #666
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10837
[mk-app] #10839 = #10837 #5370
[instance] 0x0 #10839
[attach-enode] #10839 0
[end-of-instance]
[mk-app] #10839 and #516 #5371
[mk-app] #10840 not #10839
[mk-app] #10841 or #10840 #10827
[mk-app] #10842 => #10839 #10827
[inst-discovered] theory-solving 0x0 basic# ; #10842
[mk-app] #10843 = #10842 #10841
[instance] 0x0 #10843
[attach-enode] #10843 0
[end-of-instance]
[mk-app] #10842 or #192 #10840 #10827
[mk-app] #10843 => #185 #10841
[inst-discovered] theory-solving 0x0 basic# ; #10843
[mk-app] #10844 = #10843 #10842
[instance] 0x0 #10844
[attach-enode] #10844 0
[end-of-instance]
[mk-quant] #10841 user_g1__g__is_mx_0 1 #10830 #10842
[attach-var-names] #10841 (|i$| ; |Poly|)
[mk-app] #10837 and #10824 #10841
[mk-app] #10838 = #10822 #10837
[mk-quant] #10843 internal_g1!g.is_mx.?_definition 3 #10834 #10838
[attach-var-names] #10843 (|c!| ; |Poly|) (|r!| ; |Poly|) (|a!| ; |Poly|)
[mk-app] #10844 not #10821
[mk-app] #10845 or #10844 #10843
[mk-app] #10846 => #10821 #10843
[inst-discovered] theory-solving 0x0 basic# ; #10846
[mk-app] #10847 = #10846 #10845
[instance] 0x0 #10847
[attach-enode] #10847 0
[end-of-instance]
[mk-app] #10846 fuel_bool_default #1307
[mk-app] #10847 fuel_bool #1307
[mk-app] #10848 g1!g.lower.? #32 #33
[mk-app] #10849 and #5279 #185
[mk-app] #10850 and #9184 #5357
[mk-app] #10851 vstd!seq.Seq.index.? #120 #2056 #63 #32
[mk-app] #10852 vstd!seq.Seq.index.? #120 #140 #10851 #33
[mk-app] #10853 %R #10852
[mk-app] #10854 = #10853 #602
[mk-app] #10855 => #10850 #10854
[mk-app] #10856 => #10849 #10855
[mk-app] #10857 pattern #10852
[mk-quant] #10858 user_g1__g__lower_0 2 #10857 #10856
[attach-var-names] #10858 (|j$| ; |Poly|) (|i$| ; |Poly|)
[mk-app] #10859 = #10848 #10858
[mk-app] #10860 pattern #10848
[mk-quant] #10861 internal_g1!g.lower.?_definition 2 #10860 #10859
[attach-var-names] #10861 (|n!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #10862 => #10847 #10861
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #10863 = #729 #738
[instance] 0x0 #10863
[attach-enode] #10863 0
[end-of-instance]
[mk-app] #10863 <= #186 #676
[mk-app] #10864 not #10863
[inst-discovered] theory-solving 0x0 arith# ; #6426
[mk-app] #10865 = #6426 #10864
[instance] 0x0 #10865
[attach-enode] #10865 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10863
[mk-app] #10865 = #10863 #6446
[instance] 0x0 #10865
[attach-enode] #10865 0
[end-of-instance]
[mk-app] #10865 and #738 #6497
[mk-app] #10866 <= #666 #186
[mk-app] #10867 not #10866
[inst-discovered] theory-solving 0x0 arith# ; #5357
[mk-app] #10868 = #5357 #10867
[instance] 0x0 #10868
[attach-enode] #10868 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10868 * #365 #186
[mk-app] #10869 + #10868 #666
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10866
[mk-app] #10868 = #10866 #5370
[instance] 0x0 #10868
[attach-enode] #10868 0
[end-of-instance]
[mk-app] #10868 and #738 #6497 #5371
[mk-app] #10869 and #10865 #5371
[inst-discovered] theory-solving 0x0 basic# ; #10869
[mk-app] #10870 = #10869 #10868
[instance] 0x0 #10870
[attach-enode] #10870 0
[end-of-instance]
[mk-app] #10869 not #10868
[mk-app] #10870 or #10869 #10854
[mk-app] #10871 => #10868 #10854
[inst-discovered] theory-solving 0x0 basic# ; #10871
[mk-app] #10872 = #10871 #10870
[instance] 0x0 #10872
[attach-enode] #10872 0
[end-of-instance]
[mk-app] #10871 not #10849
[mk-app] #10872 or #10871 #10869 #10854
[mk-app] #10873 => #10849 #10870
[inst-discovered] theory-solving 0x0 basic# ; #10873
[mk-app] #10874 = #10873 #10872
[instance] 0x0 #10874
[attach-enode] #10874 0
[end-of-instance]
[mk-quant] #10870 user_g1__g__lower_0 2 #10857 #10872
[attach-var-names] #10870 (|j$| ; |Poly|) (|i$| ; |Poly|)
[mk-app] #10863 = #10848 #10870
[mk-quant] #10864 internal_g1!g.lower.?_definition 2 #10860 #10863
[attach-var-names] #10864 (|n!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #10866 not #10847
[mk-app] #10867 or #10866 #10864
[mk-app] #10865 => #10847 #10864
[inst-discovered] theory-solving 0x0 basic# ; #10865
[mk-app] #10873 = #10865 #10867
[instance] 0x0 #10873
[attach-enode] #10873 0
[end-of-instance]
[mk-app] #10865 fuel_bool_default #1305
[mk-var] #10873 0
[mk-app] #10874 g1!g.rec%cdot.? #5623 #63 #43 #32 #10873
[mk-app] #10875 zero
[mk-app] #10876 g1!g.rec%cdot.? #5623 #63 #43 #32 #10875
[mk-app] #10877 = #10874 #10876
[mk-app] #10878 pattern #10874
[mk-quant] #10879 internal_g1!g.cdot._fuel_to_zero_definition 5 #10878 #10877
[attach-var-names] #10879 (|fuel%| ; |Fuel|) (|m!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #10880 has_type #5623 #2076
[mk-app] #10881 and #10880 #5626 #5494 #5279
[mk-app] #10882 succ #10873
[mk-app] #10883 g1!g.rec%cdot.? #5623 #63 #43 #32 #10882
[mk-app] #10884 <= #676 #336
[mk-app] #10885 Sub #676 #291
[mk-app] #10886 I #10885
[mk-app] #10887 g1!g.rec%cdot.? #5623 #63 #43 #10886 #10873
[mk-app] #10888 vstd!seq.Seq.index.? #120 #2056 #5623 #63
[mk-app] #10889 vstd!seq.Seq.index.? #120 #140 #10888 #10886
[mk-app] #10890 %R #10889
[mk-app] #10891 vstd!seq.Seq.index.? #120 #2056 #5623 #43
[mk-app] #10892 vstd!seq.Seq.index.? #120 #140 #10891 #10886
[mk-app] #10893 %R #10892
[mk-app] #10894 RMul #10890 #10893
[mk-app] #10895 RAdd #10887 #10894
[mk-app] #10896 if #10884 #602 #10895
[mk-app] #10897 = #10883 #10896
[mk-app] #10898 => #10881 #10897
[mk-app] #10899 pattern #10883
[mk-quant] #10900 internal_g1!g.cdot._fuel_to_body_definition 5 #10899 #10898
[attach-var-names] #10900 (|fuel%| ; |Fuel|) (|m!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #10901 not #10881
[mk-app] #10902 or #10901 #10897
[inst-discovered] theory-solving 0x0 basic# ; #10898
[mk-app] #10903 = #10898 #10902
[instance] 0x0 #10903
[attach-enode] #10903 0
[end-of-instance]
[mk-quant] #10903 internal_g1!g.cdot._fuel_to_body_definition 5 #10899 #10902
[attach-var-names] #10903 (|fuel%| ; |Fuel|) (|m!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #10904 fuel_bool #1305
[mk-app] #10905 has_type #63 #2076
[mk-app] #10906 and #10905 #5494 #5279 #185
[mk-app] #10907 g1!g.cdot.? #63 #43 #32 #33
[mk-app] #10908 fuel_nat%g1!g.cdot.
[mk-app] #10909 succ #10908
[mk-app] #10910 g1!g.rec%cdot.? #63 #43 #32 #33 #10909
[mk-app] #10911 = #10907 #10910
[mk-app] #10912 => #10906 #10911
[mk-app] #10913 pattern #10907
[mk-quant] #10914 internal_g1!g.cdot.?_definition 4 #10913 #10912
[attach-var-names] #10914 (|m!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #10915 => #10904 #10914
[mk-app] #10916 not #10906
[mk-app] #10917 or #10916 #10911
[inst-discovered] theory-solving 0x0 basic# ; #10912
[mk-app] #10918 = #10912 #10917
[instance] 0x0 #10918
[attach-enode] #10918 0
[end-of-instance]
[mk-quant] #10918 internal_g1!g.cdot.?_definition 4 #10913 #10917
[attach-var-names] #10918 (|m!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #10919 not #10904
[mk-app] #10920 or #10919 #10918
[mk-app] #10921 => #10904 #10918
[inst-discovered] theory-solving 0x0 basic# ; #10921
[mk-app] #10922 = #10921 #10920
[instance] 0x0 #10922
[attach-enode] #10922 0
[end-of-instance]
[mk-app] #10921 fuel_bool_default #1306
[mk-app] #10922 fuel_bool #1306
[mk-app] #10923 g1!g.pchol.? #63 #43 #32 #33
[mk-app] #10924 < #186 #676
[mk-app] #10925 and #512 #10924
[mk-app] #10926 vstd!seq.Seq.index.? #120 #140 #10825 #33
[mk-app] #10927 %R #10926
[mk-app] #10928 > #10927 #602
[mk-app] #10929 => #10925 #10928
[mk-app] #10930 => #185 #10929
[mk-app] #10931 pattern #10926
[mk-quant] #10932 user_g1__g__pchol_0 1 #10931 #10930
[attach-var-names] #10932 (|i$| ; |Poly|)
[mk-app] #10933 < #676 #666
[mk-app] #10934 and #729 #10933
[mk-app] #10935 < #186 #5629
[mk-app] #10936 and #5258 #10935
[mk-app] #10937 and #10934 #10936
[mk-app] #10938 vstd!seq.Seq.index.? #120 #2056 #6337 #32
[mk-app] #10939 vstd!seq.Seq.index.? #120 #140 #10938 #33
[mk-app] #10940 %R #10939
[mk-app] #10941 Add #676 #291
[mk-app] #10942 I #10941
[mk-app] #10943 g1!g.cdot.? #5623 #32 #33 #10942
[mk-app] #10944 = #10940 #10943
[mk-app] #10945 => #10937 #10944
[mk-app] #10946 => #10849 #10945
[mk-app] #10947 pattern #10939
[mk-quant] #10948 user_g1__g__pchol_1 2 #10947 #10946
[attach-var-names] #10948 (|j$| ; |Poly|) (|i$| ; |Poly|)
[mk-app] #10949 and #10932 #10948
[mk-app] #10950 = #10923 #10949
[mk-app] #10951 pattern #10923
[mk-quant] #10952 internal_g1!g.pchol.?_definition 4 #10951 #10950
[attach-var-names] #10952 (|c!| ; |Poly|) (|n!| ; |Poly|) (|l!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #10953 => #10922 #10952
[attach-meaning] #365 arith (- 1)
[mk-app] #10954 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #10954 = #512 #516
[instance] 0x0 #10954
[attach-enode] #10954 0
[end-of-instance]
[mk-app] #10954 not #5258
[inst-discovered] theory-solving 0x0 arith# ; #10924
[mk-app] #10955 = #10924 #10954
[instance] 0x0 #10955
[attach-enode] #10955 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10955 * #365 #186
[mk-app] #10956 + #10955 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #10955 = #5258 #5266
[instance] 0x0 #10955
[attach-enode] #10955 0
[end-of-instance]
[mk-app] #10955 not #5266
[mk-app] #10956 and #516 #10955
[mk-app] #10957 <= #10927 #602
[mk-app] #10958 not #10957
[inst-discovered] theory-solving 0x0 arith# ; #10928
[mk-app] #10959 = #10928 #10958
[instance] 0x0 #10959
[attach-enode] #10959 0
[end-of-instance]
[mk-app] #10959 not #10956
[mk-app] #10960 or #10959 #10958
[mk-app] #10961 => #10956 #10958
[inst-discovered] theory-solving 0x0 basic# ; #10961
[mk-app] #10962 = #10961 #10960
[instance] 0x0 #10962
[attach-enode] #10962 0
[end-of-instance]
[mk-app] #10961 or #192 #10959 #10958
[mk-app] #10962 => #185 #10960
[inst-discovered] theory-solving 0x0 basic# ; #10962
[mk-app] #10963 = #10962 #10961
[instance] 0x0 #10963
[attach-enode] #10963 0
[end-of-instance]
[mk-quant] #10960 user_g1__g__pchol_0 1 #10931 #10961
[attach-var-names] #10960 (|i$| ; |Poly|)
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #729
[mk-app] #10954 = #729 #738
[instance] 0x0 #10954
[attach-enode] #10954 0
[end-of-instance]
[mk-app] #10954 not #5585
[inst-discovered] theory-solving 0x0 arith# ; #10933
[mk-app] #10962 = #10933 #10954
[instance] 0x0 #10962
[attach-enode] #10962 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5585
[mk-app] #10962 = #5585 #5607
[instance] 0x0 #10962
[attach-enode] #10962 0
[end-of-instance]
[mk-app] #10962 not #5607
[attach-meaning] #365 arith (- 1)
[mk-app] #10963 * #365 #186
[mk-app] #10964 + #10963 #676
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5258
[mk-app] #10963 = #5258 #5266
[instance] 0x0 #10963
[attach-enode] #10963 0
[end-of-instance]
[mk-app] #10963 <= #5629 #186
[mk-app] #10964 not #10963
[inst-discovered] theory-solving 0x0 arith# ; #10935
[mk-app] #10965 = #10935 #10964
[instance] 0x0 #10965
[attach-enode] #10965 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #10965 * #365 #186
[mk-app] #10966 + #10965 #5629
[attach-meaning] #365 arith (- 1)
[mk-app] #10965 >= #9199 #336
[inst-discovered] theory-solving 0x0 arith# ; #10963
[mk-app] #10966 = #10963 #10965
[instance] 0x0 #10966
[attach-enode] #10966 0
[end-of-instance]
[mk-app] #10966 not #10965
[mk-app] #10967 and #738 #10962 #5266 #10966
[mk-app] #10968 not #10967
[mk-app] #10969 or #10968 #10944
[mk-app] #10970 => #10967 #10944
[inst-discovered] theory-solving 0x0 basic# ; #10970
[mk-app] #10971 = #10970 #10969
[instance] 0x0 #10971
[attach-enode] #10971 0
[end-of-instance]
[mk-app] #10970 or #10871 #10968 #10944
[mk-app] #10971 => #10849 #10969
[inst-discovered] theory-solving 0x0 basic# ; #10971
[mk-app] #10972 = #10971 #10970
[instance] 0x0 #10972
[attach-enode] #10972 0
[end-of-instance]
[mk-quant] #10969 user_g1__g__pchol_1 2 #10947 #10970
[attach-var-names] #10969 (|j$| ; |Poly|) (|i$| ; |Poly|)
[mk-app] #10963 and #10960 #10969
[mk-app] #10964 = #10923 #10963
[mk-quant] #10954 internal_g1!g.pchol.?_definition 4 #10951 #10964
[attach-var-names] #10954 (|c!| ; |Poly|) (|n!| ; |Poly|) (|l!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #10971 not #10922
[mk-app] #10972 or #10971 #10954
[mk-app] #10973 => #10922 #10954
[inst-discovered] theory-solving 0x0 basic# ; #10973
[mk-app] #10974 = #10973 #10972
[instance] 0x0 #10974
[attach-enode] #10974 0
[end-of-instance]
[mk-app] #10973 fuel_bool_default #1308
[mk-app] #10974 fuel_bool #1308
[mk-app] #10975 g1!g.is_chol.? #43 #32 #33
[mk-app] #10976 g1!g.is_mx.? #32 #33 #33
[mk-app] #10977 and #10976 #10848
[mk-app] #10978 g1!g.pchol.? #43 #32 #33 #33
[mk-app] #10979 and #10977 #10978
[mk-app] #10980 = #10975 #10979
[mk-app] #10981 pattern #10975
[mk-quant] #10982 internal_g1!g.is_chol.?_definition 3 #10981 #10980
[attach-var-names] #10982 (|n!| ; |Poly|) (|l!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #10983 => #10974 #10982
[mk-app] #10984 and #10976 #10848 #10978
[mk-app] #10985 = #10975 #10984
[mk-quant] #10986 internal_g1!g.is_chol.?_definition 3 #10981 #10985
[attach-var-names] #10986 (|n!| ; |Poly|) (|l!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #10987 not #10974
[mk-app] #10988 or #10987 #10986
[mk-app] #10989 => #10974 #10986
[inst-discovered] theory-solving 0x0 basic# ; #10989
[mk-app] #10990 = #10989 #10988
[instance] 0x0 #10990
[attach-enode] #10990 0
[end-of-instance]
[mk-app] #10989 fuel_bool_default #1309
[mk-app] #10990 fuel_bool #1309
[mk-app] #10991 g1!g.has_chol.? #32 #33
[mk-app] #10992 g1!g.is_chol.? #43 #33 #32
[mk-app] #10993 and #2077 #10992
[mk-app] #10994 pattern #10992
[mk-quant] #10995 user_g1__g__has_chol_0 1 #10994 #10993
[attach-var-names] #10995 (|m$| ; |Poly|)
[mk-app] #10996 = #10991 #10995
[mk-app] #10997 pattern #10991
[mk-quant] #10998 internal_g1!g.has_chol.?_definition 2 #10997 #10996
[attach-var-names] #10998 (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #10999 => #10990 #10998
[mk-app] #11000 not #10990
[mk-app] #11001 or #11000 #10998
[inst-discovered] theory-solving 0x0 basic# ; #10999
[mk-app] #11002 = #10999 #11001
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #11002 req%g1!g.chol_begin. #1593 #263 #32 #122
[mk-app] #11003 %%global_location_label%%50
[mk-app] #11004 >= #122 #291
[mk-app] #11005 => #11003 #11004
[mk-app] #11006 %%global_location_label%%51
[mk-app] #11007 Mul #122 #122
[mk-app] #11008 <= #11007 #5190
[mk-app] #11009 => #11006 #11008
[mk-app] #11010 and #11005 #11009
[mk-app] #11011 = #11002 #11010
[mk-app] #11012 pattern #11002
[mk-quant] #11013 internal_req__g1!g.chol_begin._definition 4 #11012 #11011
[attach-var-names] #11013 (|n!| ; |Int|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11014 not #11003
[mk-app] #11015 or #11014 #11004
[inst-discovered] theory-solving 0x0 basic# ; #11005
[mk-app] #11016 = #11005 #11015
[instance] 0x0 #11016
[attach-enode] #11016 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11016 + #5201 #11007
[attach-meaning] #365 arith (- 1)
[mk-app] #11017 * #365 #11007
[mk-app] #11018 + #5190 #11017
[mk-app] #11016 >= #11018 #336
[inst-discovered] theory-solving 0x0 arith# ; #11008
[mk-app] #11019 = #11008 #11016
[instance] 0x0 #11019
[attach-enode] #11019 0
[end-of-instance]
[mk-app] #11019 not #11006
[mk-app] #11020 or #11019 #11016
[mk-app] #11021 => #11006 #11016
[inst-discovered] theory-solving 0x0 basic# ; #11021
[mk-app] #11022 = #11021 #11020
[instance] 0x0 #11022
[attach-enode] #11022 0
[end-of-instance]
[mk-app] #11021 and #11015 #11020
[mk-app] #11022 = #11002 #11021
[mk-quant] #11023 internal_req__g1!g.chol_begin._definition 4 #11012 #11022
[attach-var-names] #11023 (|n!| ; |Int|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11024 ens%g1!g.chol_begin. #1593 #263 #32 #122
[mk-app] #11025 g1!g.chol_done.? #1593 #263 #32 #32 #165 #8079
[mk-app] #11026 = #11024 #11025
[mk-app] #11027 pattern #11024
[mk-quant] #11028 internal_ens__g1!g.chol_begin._definition 4 #11027 #11026
[attach-var-names] #11028 (|n!| ; |Int|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11029 req%g1!g.chol_open. #1615 #1616 #5623 #63 #2455 #219 #6
[mk-app] #11030 %%global_location_label%%52
[mk-app] #11031 I #2455
[mk-app] #11032 g1!g.chol_done.? #1615 #1616 #5623 #63 #11031 #771
[mk-app] #11033 => #11030 #11032
[mk-app] #11034 %%global_location_label%%53
[mk-app] #11035 < #219 #2455
[mk-app] #11036 => #11034 #11035
[mk-app] #11037 and #11033 #11036
[mk-app] #11038 = #11029 #11037
[mk-app] #11039 pattern #11029
[mk-quant] #11040 internal_req__g1!g.chol_open._definition 7 #11039 #11038
[attach-var-names] #11040 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11041 not #11030
[mk-app] #11042 or #11041 #11032
[inst-discovered] theory-solving 0x0 basic# ; #11033
[mk-app] #11043 = #11033 #11042
[instance] 0x0 #11043
[attach-enode] #11043 0
[end-of-instance]
[mk-app] #11043 <= #2455 #219
[mk-app] #11044 not #11043
[inst-discovered] theory-solving 0x0 arith# ; #11035
[mk-app] #11045 = #11035 #11044
[instance] 0x0 #11045
[attach-enode] #11045 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11045 + #564 #2455
[attach-meaning] #365 arith (- 1)
[mk-app] #11046 + #219 #2681
[mk-app] #11045 >= #11046 #336
[inst-discovered] theory-solving 0x0 arith# ; #11043
[mk-app] #11047 = #11043 #11045
[instance] 0x0 #11047
[attach-enode] #11047 0
[end-of-instance]
[mk-app] #11047 not #11045
[mk-app] #11048 not #11034
[mk-app] #11049 or #11048 #11047
[mk-app] #11050 => #11034 #11047
[inst-discovered] theory-solving 0x0 basic# ; #11050
[mk-app] #11051 = #11050 #11049
[instance] 0x0 #11051
[attach-enode] #11051 0
[end-of-instance]
[mk-app] #11050 and #11042 #11049
[mk-app] #11051 = #11029 #11050
[mk-quant] #11052 internal_req__g1!g.chol_open._definition 7 #11039 #11051
[attach-var-names] #11052 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11043 ens%g1!g.chol_open. #1615 #1616 #5623 #63 #2455 #219 #6
[mk-app] #11044 g1!g.chol_col.? #1615 #1616 #5623 #63 #11031 #771 #771 #139
[mk-app] #11053 = #11043 #11044
[mk-app] #11054 pattern #11043
[mk-quant] #11055 internal_ens__g1!g.chol_open._definition 7 #11054 #11053
[attach-var-names] #11055 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11056 fuel_bool_default #1310
[mk-app] #11057 fuel_bool #1310
[mk-app] #11058 g1!g.chol_sum.? #3199 #1621 #6337 #5623 #63 #43 #32 #33
[mk-app] #11059 g1!g.mx.? #3199 #1621 #6337 #63 #63
[mk-app] #11060 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #11059
[mk-app] #11061 vstd!seq.Seq.index.? #120 #2056 #11060 #43
[mk-app] #11062 vstd!seq.Seq.index.? #120 #140 #11061 #32
[mk-app] #11063 %R #11062
[mk-app] #11064 g1!g.mx.? #3199 #1621 #5623 #63 #63
[mk-app] #11065 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #11064
[mk-app] #11066 g1!g.cdot.? #11065 #43 #32 #33
[mk-app] #11067 RSub #11063 #11066
[mk-app] #11068 = #11058 #11067
[mk-app] #11069 pattern #11058
[mk-quant] #11070 internal_g1!g.chol_sum.?_definition 8 #11069 #11068
[attach-var-names] #11070 (|k!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|) (|n!| ; |Poly|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11071 => #11057 #11070
[mk-app] #11072 not #11057
[mk-app] #11073 or #11072 #11070
[inst-discovered] theory-solving 0x0 basic# ; #11071
[mk-app] #11074 = #11071 #11073
[instance] 0x0 #11074
[attach-enode] #11074 0
[end-of-instance]
[mk-app] #11074 req%g1!g.chol_first. #3199 #1621 #6337 #5623 #2216 #2455 #219 #6
[mk-app] #11075 %%global_location_label%%54
[mk-app] #11076 I #2216
[mk-app] #11077 g1!g.chol_col.? #3199 #1621 #6337 #5623 #11076 #11031 #771 #139
[mk-app] #11078 => #11075 #11077
[mk-app] #11079 %%global_location_label%%55
[mk-app] #11080 < #219 #2216
[mk-app] #11081 => #11079 #11080
[mk-app] #11082 and #11078 #11081
[mk-app] #11083 = #11074 #11082
[mk-app] #11084 pattern #11074
[mk-quant] #11085 internal_req__g1!g.chol_first._definition 8 #11084 #11083
[attach-var-names] #11085 (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11086 not #11075
[mk-app] #11087 or #11086 #11077
[inst-discovered] theory-solving 0x0 basic# ; #11078
[mk-app] #11088 = #11078 #11087
[instance] 0x0 #11088
[attach-enode] #11088 0
[end-of-instance]
[mk-app] #11088 <= #2216 #219
[mk-app] #11089 not #11088
[inst-discovered] theory-solving 0x0 arith# ; #11080
[mk-app] #11090 = #11080 #11089
[instance] 0x0 #11090
[attach-enode] #11090 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11090 + #564 #2216
[attach-meaning] #365 arith (- 1)
[mk-app] #11091 * #365 #2216
[mk-app] #11092 + #219 #11091
[mk-app] #11090 >= #11092 #336
[inst-discovered] theory-solving 0x0 arith# ; #11088
[mk-app] #11093 = #11088 #11090
[instance] 0x0 #11093
[attach-enode] #11093 0
[end-of-instance]
[mk-app] #11093 not #11090
[mk-app] #11094 not #11079
[mk-app] #11095 or #11094 #11093
[mk-app] #11096 => #11079 #11093
[inst-discovered] theory-solving 0x0 basic# ; #11096
[mk-app] #11097 = #11096 #11095
[instance] 0x0 #11097
[attach-enode] #11097 0
[end-of-instance]
[mk-app] #11096 and #11087 #11095
[mk-app] #11097 = #11074 #11096
[mk-quant] #11098 internal_req__g1!g.chol_first._definition 8 #11084 #11097
[attach-var-names] #11098 (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11088 ens%g1!g.chol_first. #3199 #1621 #6337 #5623 #2216 #2455 #219 #6
[mk-app] #11089 vstd!seq.Seq.len.? #3199 #1621 #5623
[mk-app] #11099 vstd!seq.Seq.len.? #3199 #1621 #6337
[mk-app] #11100 = #11089 #11099
[mk-app] #11101 g1!g.ix.? #11031 #771 #11076
[mk-app] #11102 <= #336 #11101
[mk-app] #11103 < #11101 #11089
[mk-app] #11104 and #11102 #11103
[mk-app] #11105 I #11101
[mk-app] #11106 vstd!seq.Seq.index.? #3199 #1621 #5623 #11105
[mk-app] #11107 g1!g.MatrixDataTypeBase.val.? #3199 #1621 #11106
[mk-app] #11108 %R #11107
[mk-app] #11109 g1!g.chol_sum.? #3199 #1621 #6337 #5623 #11076 #11031 #771 #8079
[mk-app] #11110 = #11108 #11109
[mk-app] #11111 and #11100 #11104 #11110
[mk-app] #11112 = #11088 #11111
[mk-app] #11113 pattern #11088
[mk-quant] #11114 internal_ens__g1!g.chol_first._definition 8 #11113 #11112
[attach-var-names] #11114 (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #11115 * #365 #11101
[mk-app] #11116 >= #11101 #336
[inst-discovered] theory-solving 0x0 arith# ; #11102
[mk-app] #11115 = #11102 #11116
[instance] 0x0 #11115
[attach-enode] #11115 0
[end-of-instance]
[mk-app] #11115 <= #11089 #11101
[mk-app] #11117 not #11115
[inst-discovered] theory-solving 0x0 arith# ; #11103
[mk-app] #11118 = #11103 #11117
[instance] 0x0 #11118
[attach-enode] #11118 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11118 * #365 #11101
[mk-app] #11119 + #11089 #11118
[mk-app] #11120 <= #11119 #336
[inst-discovered] theory-solving 0x0 arith# ; #11115
[mk-app] #11121 = #11115 #11120
[instance] 0x0 #11121
[attach-enode] #11121 0
[end-of-instance]
[mk-app] #11121 not #11120
[mk-app] #11122 and #11100 #11116 #11121 #11110
[mk-app] #11123 = #11088 #11122
[mk-quant] #11124 internal_ens__g1!g.chol_first._definition 8 #11113 #11123
[attach-var-names] #11124 (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11115 req%g1!g.chol_next. #3199 #1621 #6337 #5623 #2216 #2455 #219 #122
[mk-app] #11117 %%global_location_label%%56
[mk-app] #11125 => #11117 #2666
[mk-app] #11126 %%global_location_label%%57
[mk-app] #11127 < #2455 #2216
[mk-app] #11128 => #11126 #11127
[mk-app] #11129 %%global_location_label%%58
[mk-app] #11130 <= #2455 #219
[mk-app] #11131 and #11130 #11080
[mk-app] #11132 => #11129 #11131
[mk-app] #11133 %%global_location_label%%59
[mk-app] #11134 Mul #2216 #2216
[mk-app] #11135 >= #11089 #11134
[mk-app] #11136 => #11133 #11135
[mk-app] #11137 and #11125 #11128 #11132 #11136
[mk-app] #11138 = #11115 #11137
[mk-app] #11139 pattern #11115
[mk-quant] #11140 internal_req__g1!g.chol_next._definition 8 #11139 #11138
[attach-var-names] #11140 (|k!| ; |Int|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #11141 * #365 #122
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #11141 = #339 #348
[instance] 0x0 #11141
[attach-enode] #11141 0
[end-of-instance]
[mk-app] #11141 <= #2455 #122
[mk-app] #11142 not #11141
[inst-discovered] theory-solving 0x0 arith# ; #2665
[mk-app] #11143 = #2665 #11142
[instance] 0x0 #11143
[attach-enode] #11143 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11143 * #365 #122
[mk-app] #11144 + #11143 #2455
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #11141
[mk-app] #11143 = #11141 #2679
[instance] 0x0 #11143
[attach-enode] #11143 0
[end-of-instance]
[mk-app] #11143 not #11117
[mk-app] #11144 or #11143 #2683
[mk-app] #11145 => #11117 #2683
[inst-discovered] theory-solving 0x0 basic# ; #11145
[mk-app] #11146 = #11145 #11144
[instance] 0x0 #11146
[attach-enode] #11146 0
[end-of-instance]
[mk-app] #11145 <= #2216 #2455
[mk-app] #11146 not #11145
[inst-discovered] theory-solving 0x0 arith# ; #11127
[mk-app] #11147 = #11127 #11146
[instance] 0x0 #11147
[attach-enode] #11147 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11147 + #2216 #2681
[mk-app] #11148 <= #11147 #336
[inst-discovered] theory-solving 0x0 arith# ; #11145
[mk-app] #11149 = #11145 #11148
[instance] 0x0 #11149
[attach-enode] #11149 0
[end-of-instance]
[mk-app] #11149 not #11148
[mk-app] #11150 not #11126
[mk-app] #11151 or #11150 #11149
[mk-app] #11152 => #11126 #11149
[inst-discovered] theory-solving 0x0 basic# ; #11152
[mk-app] #11153 = #11152 #11151
[instance] 0x0 #11153
[attach-enode] #11153 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11152 + #564 #2455
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #11130
[mk-app] #11152 = #11130 #11045
[instance] 0x0 #11152
[attach-enode] #11152 0
[end-of-instance]
[mk-app] #11152 <= #2216 #219
[mk-app] #11153 not #11152
[inst-discovered] theory-solving 0x0 arith# ; #11080
[mk-app] #11154 = #11080 #11153
[instance] 0x0 #11154
[attach-enode] #11154 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11154 + #564 #2216
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #11152
[mk-app] #11154 = #11152 #11090
[instance] 0x0 #11154
[attach-enode] #11154 0
[end-of-instance]
[mk-app] #11154 and #11045 #11093
[mk-app] #11155 not #11129
[mk-app] #11156 or #11155 #11154
[mk-app] #11157 => #11129 #11154
[inst-discovered] theory-solving 0x0 basic# ; #11157
[mk-app] #11158 = #11157 #11156
[instance] 0x0 #11158
[attach-enode] #11158 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11157 * #365 #11134
[mk-app] #11158 + #11089 #11157
[mk-app] #11159 >= #11158 #336
[inst-discovered] theory-solving 0x0 arith# ; #11135
[mk-app] #11160 = #11135 #11159
[instance] 0x0 #11160
[attach-enode] #11160 0
[end-of-instance]
[mk-app] #11160 not #11133
[mk-app] #11161 or #11160 #11159
[mk-app] #11162 => #11133 #11159
[inst-discovered] theory-solving 0x0 basic# ; #11162
[mk-app] #11163 = #11162 #11161
[instance] 0x0 #11163
[attach-enode] #11163 0
[end-of-instance]
[mk-app] #11162 and #11144 #11151 #11156 #11161
[mk-app] #11163 = #11115 #11162
[mk-quant] #11164 internal_req__g1!g.chol_next._definition 8 #11139 #11163
[attach-var-names] #11164 (|k!| ; |Int|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11141 ens%g1!g.chol_next. #3199 #1621 #6337 #5623 #2216 #2455 #219 #122
[mk-app] #11142 g1!g.ix.? #11031 #165 #11076
[mk-app] #11145 Add #11142 #291
[mk-app] #11146 g1!g.ix.? #11031 #11031 #11076
[mk-app] #11152 <= #336 #11142
[mk-app] #11153 < #11142 #11145
[mk-app] #11165 and #11152 #11153
[mk-app] #11166 <= #11145 #11146
[mk-app] #11167 and #11165 #11166
[mk-app] #11168 < #11146 #11089
[mk-app] #11169 and #11167 #11168
[mk-app] #11170 g1!g.ix.? #771 #165 #11076
[mk-app] #11171 <= #336 #11170
[mk-app] #11172 < #11170 #11089
[mk-app] #11173 and #11171 #11172
[mk-app] #11174 < #11145 #11089
[mk-app] #11175 Add #11170 #291
[mk-app] #11176 < #11175 #11089
[mk-app] #11177 Add #122 #291
[mk-app] #11178 I #11177
[mk-app] #11179 g1!g.chol_sum.? #3199 #1621 #6337 #5623 #11076 #11031 #771 #11178
[mk-app] #11180 g1!g.chol_sum.? #3199 #1621 #6337 #5623 #11076 #11031 #771 #165
[mk-app] #11181 I #11142
[mk-app] #11182 vstd!seq.Seq.index.? #3199 #1621 #5623 #11181
[mk-app] #11183 g1!g.MatrixDataTypeBase.val.? #3199 #1621 #11182
[mk-app] #11184 %R #11183
[mk-app] #11185 I #11170
[mk-app] #11186 vstd!seq.Seq.index.? #3199 #1621 #5623 #11185
[mk-app] #11187 g1!g.MatrixDataTypeBase.val.? #3199 #1621 #11186
[mk-app] #11188 %R #11187
[mk-app] #11189 RMul #11184 #11188
[mk-app] #11190 RSub #11180 #11189
[mk-app] #11191 = #11179 #11190
[mk-app] #11192 and #11169 #11173 #11174 #11176 #11191
[mk-app] #11193 = #11141 #11192
[mk-app] #11194 pattern #11141
[mk-quant] #11195 internal_ens__g1!g.chol_next._definition 8 #11194 #11193
[attach-var-names] #11195 (|k!| ; |Int|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #11196 * #365 #11142
[mk-app] #11197 >= #11142 #336
[inst-discovered] theory-solving 0x0 arith# ; #11152
[mk-app] #11196 = #11152 #11197
[instance] 0x0 #11196
[attach-enode] #11196 0
[end-of-instance]
[mk-app] #11196 <= #11145 #11142
[mk-app] #11198 not #11196
[inst-discovered] theory-solving 0x0 arith# ; #11153
[mk-app] #11199 = #11153 #11198
[instance] 0x0 #11199
[attach-enode] #11199 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11199 * #365 #11142
[mk-app] #11200 + #11199 #11145
[attach-meaning] #365 arith (- 1)
[mk-app] #11201 * #365 #11145
[mk-app] #11202 + #11142 #11201
[mk-app] #11199 >= #11202 #336
[inst-discovered] theory-solving 0x0 arith# ; #11196
[mk-app] #11200 = #11196 #11199
[instance] 0x0 #11200
[attach-enode] #11200 0
[end-of-instance]
[mk-app] #11200 not #11199
[attach-meaning] #365 arith (- 1)
[mk-app] #11203 * #365 #11146
[mk-app] #11204 + #11145 #11203
[mk-app] #11205 <= #11204 #336
[inst-discovered] theory-solving 0x0 arith# ; #11166
[mk-app] #11206 = #11166 #11205
[instance] 0x0 #11206
[attach-enode] #11206 0
[end-of-instance]
[mk-app] #11206 <= #11089 #11146
[mk-app] #11207 not #11206
[inst-discovered] theory-solving 0x0 arith# ; #11168
[mk-app] #11208 = #11168 #11207
[instance] 0x0 #11208
[attach-enode] #11208 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11208 + #11089 #11203
[mk-app] #11209 <= #11208 #336
[inst-discovered] theory-solving 0x0 arith# ; #11206
[mk-app] #11210 = #11206 #11209
[instance] 0x0 #11210
[attach-enode] #11210 0
[end-of-instance]
[mk-app] #11210 not #11209
[attach-meaning] #365 arith (- 1)
[mk-app] #11211 * #365 #11170
[mk-app] #11212 >= #11170 #336
[inst-discovered] theory-solving 0x0 arith# ; #11171
[mk-app] #11211 = #11171 #11212
[instance] 0x0 #11211
[attach-enode] #11211 0
[end-of-instance]
[mk-app] #11211 <= #11089 #11170
[mk-app] #11213 not #11211
[inst-discovered] theory-solving 0x0 arith# ; #11172
[mk-app] #11214 = #11172 #11213
[instance] 0x0 #11214
[attach-enode] #11214 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11214 * #365 #11170
[mk-app] #11215 + #11089 #11214
[mk-app] #11216 <= #11215 #336
[inst-discovered] theory-solving 0x0 arith# ; #11211
[mk-app] #11217 = #11211 #11216
[instance] 0x0 #11217
[attach-enode] #11217 0
[end-of-instance]
[mk-app] #11217 not #11216
[mk-app] #11218 <= #11089 #11145
[mk-app] #11219 not #11218
[inst-discovered] theory-solving 0x0 arith# ; #11174
[mk-app] #11220 = #11174 #11219
[instance] 0x0 #11220
[attach-enode] #11220 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11220 + #11089 #11201
[mk-app] #11221 <= #11220 #336
[inst-discovered] theory-solving 0x0 arith# ; #11218
[mk-app] #11222 = #11218 #11221
[instance] 0x0 #11222
[attach-enode] #11222 0
[end-of-instance]
[mk-app] #11222 not #11221
[mk-app] #11223 <= #11089 #11175
[mk-app] #11224 not #11223
[inst-discovered] theory-solving 0x0 arith# ; #11176
[mk-app] #11225 = #11176 #11224
[instance] 0x0 #11225
[attach-enode] #11225 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11225 * #365 #11175
[mk-app] #11226 + #11089 #11225
[mk-app] #11227 <= #11226 #336
[inst-discovered] theory-solving 0x0 arith# ; #11223
[mk-app] #11228 = #11223 #11227
[instance] 0x0 #11228
[attach-enode] #11228 0
[end-of-instance]
[mk-app] #11228 not #11227
[mk-app] #11229 and #11197 #11200 #11205 #11210 #11212 #11217 #11222 #11228 #11191
[mk-app] #11230 = #11141 #11229
[mk-quant] #11231 internal_ens__g1!g.chol_next._definition 8 #11194 #11230
[attach-var-names] #11231 (|k!| ; |Int|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11218 req%g1!g.chol_fail. #1615 #1616 #5623 #63 #2455 #219 #6
[mk-app] #11219 %%global_location_label%%60
[mk-app] #11196 => #11219 #11044
[mk-app] #11198 %%global_location_label%%61
[mk-app] #11211 g1!g.chol_sum.? #1615 #1616 #5623 #63 #11031 #771 #771 #771
[mk-app] #11213 <= #11211 #602
[mk-app] #11223 => #11198 #11213
[mk-app] #11224 and #11196 #11223
[mk-app] #11206 = #11218 #11224
[mk-app] #11207 pattern #11218
[mk-quant] #11232 internal_req__g1!g.chol_fail._definition 7 #11207 #11206
[attach-var-names] #11232 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11233 not #11219
[mk-app] #11234 or #11233 #11044
[inst-discovered] theory-solving 0x0 basic# ; #11196
[mk-app] #11235 = #11196 #11234
[instance] 0x0 #11235
[attach-enode] #11235 0
[end-of-instance]
[mk-app] #11235 not #11198
[mk-app] #11236 or #11235 #11213
[inst-discovered] theory-solving 0x0 basic# ; #11223
[mk-app] #11237 = #11223 #11236
[instance] 0x0 #11237
[attach-enode] #11237 0
[end-of-instance]
[mk-app] #11237 and #11234 #11236
[mk-app] #11238 = #11218 #11237
[mk-quant] #11239 internal_req__g1!g.chol_fail._definition 7 #11207 #11238
[attach-var-names] #11239 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11240 ens%g1!g.chol_fail. #1615 #1616 #5623 #63 #2455 #219 #6
[mk-app] #11241 g1!g.mx.? #1615 #1616 #5623 #11031 #11031
[mk-app] #11242 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #11241
[mk-app] #11243 g1!g.has_chol.? #11242 #11031
[mk-app] #11244 not #11243
[mk-app] #11245 Mul #2455 #2455
[mk-app] #11246 I #11245
[mk-app] #11247 g1!g.frame.? #1615 #1616 #5623 #63 #11246
[mk-app] #11248 and #11244 #11247
[mk-app] #11249 = #11240 #11248
[mk-app] #11250 pattern #11240
[mk-quant] #11251 internal_ens__g1!g.chol_fail._definition 7 #11250 #11249
[attach-var-names] #11251 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #11252 5
[mk-app] #11253 req%g1!g.chol_diag. #9651 #9652 #10466 #10416 #10417 #11252 #8326 #9 #8 #7 #33
[mk-app] #11254 %%global_location_label%%62
[mk-app] #11255 I #11252
[mk-app] #11256 I #8326
[mk-app] #11257 R #9
[mk-app] #11258 g1!g.chol_col.? #9651 #9652 #10466 #10416 #11255 #11256 #11256 #11257
[mk-app] #11259 => #11254 #11258
[mk-app] #11260 %%global_location_label%%63
[mk-app] #11261 g1!g.chol_sum.? #9651 #9652 #10466 #10416 #11255 #11256 #11256 #11256
[mk-app] #11262 = #7 #11261
[mk-app] #11263 => #11260 #11262
[mk-app] #11264 %%global_location_label%%64
[mk-app] #11265 > #7 #602
[mk-app] #11266 => #11264 #11265
[mk-app] #11267 %%global_location_label%%65
[mk-app] #11268 g1!g.MatrixDataTypeBase.val.? #9651 #9652 #33
[mk-app] #11269 %R #11268
[mk-app] #11270 >= #11269 #602
[mk-app] #11271 => #11267 #11270
[mk-app] #11272 %%global_location_label%%66
[mk-app] #11273 RMul #11269 #11269
[mk-app] #11274 = #11273 #7
[mk-app] #11275 => #11272 #11274
[mk-app] #11276 %%global_location_label%%67
[mk-app] #11277 = #11269 #602
[mk-app] #11278 not #11277
[mk-app] #11279 RMul #8 #11269
[mk-app] #11280 = #11279 #9119
[mk-app] #11281 => #11278 #11280
[mk-app] #11282 => #11276 #11281
[mk-app] #11283 %%global_location_label%%68
[mk-app] #11284 vstd!seq.Seq.len.? #9651 #9652 #10417
[mk-app] #11285 vstd!seq.Seq.len.? #9651 #9652 #10416
[mk-app] #11286 = #11284 #11285
[mk-app] #11287 => #11283 #11286
[mk-app] #11288 %%global_location_label%%69
[mk-app] #11289 vstd!seq.Seq.len.? #9680 #9671 #10466
[mk-app] #11290 < #186 #11289
[mk-app] #11291 and #512 #11290
[mk-app] #11292 vstd!seq.Seq.index.? #9680 #9671 #10416 #33
[mk-var] #11293 6
[mk-app] #11294 I #11293
[mk-app] #11295 g1!g.ix.? #11255 #11255 #11294
[mk-app] #11296 = #186 #11295
[mk-app] #11297 vstd!seq.Seq.index.? #9680 #9671 #10466 #33
[mk-app] #11298 if #11296 #32 #11297
[mk-app] #11299 = #11292 #11298
[mk-app] #11300 => #11291 #11299
[mk-app] #11301 => #185 #11300
[mk-app] #11302 pattern #11292
[mk-quant] #11303 user_g1__g__chol_diag_0 1 #11302 #11301
[attach-var-names] #11303 (|q$| ; |Poly|)
[mk-app] #11304 => #11288 #11303
[mk-app] #11305 and #11259 #11263 #11266 #11271 #11275 #11282 #11287 #11304
[mk-app] #11306 = #11253 #11305
[mk-app] #11307 pattern #11253
[mk-quant] #11308 internal_req__g1!g.chol_diag._definition 11 #11307 #11306
[attach-var-names] #11308 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|div0!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11309 not #11254
[mk-app] #11310 or #11309 #11258
[inst-discovered] theory-solving 0x0 basic# ; #11259
[mk-app] #11311 = #11259 #11310
[instance] 0x0 #11311
[attach-enode] #11311 0
[end-of-instance]
[mk-app] #11311 not #11260
[mk-app] #11312 or #11311 #11262
[inst-discovered] theory-solving 0x0 basic# ; #11263
[mk-app] #11313 = #11263 #11312
[instance] 0x0 #11313
[attach-enode] #11313 0
[end-of-instance]
[mk-app] #11313 <= #7 #602
[mk-app] #11314 not #11313
[inst-discovered] theory-solving 0x0 arith# ; #11265
[mk-app] #11315 = #11265 #11314
[instance] 0x0 #11315
[attach-enode] #11315 0
[end-of-instance]
[mk-app] #11315 not #11264
[mk-app] #11316 or #11315 #11314
[mk-app] #11317 => #11264 #11314
[inst-discovered] theory-solving 0x0 basic# ; #11317
[mk-app] #11318 = #11317 #11316
[instance] 0x0 #11318
[attach-enode] #11318 0
[end-of-instance]
[mk-app] #11317 not #11267
[mk-app] #11318 or #11317 #11270
[inst-discovered] theory-solving 0x0 basic# ; #11271
[mk-app] #11319 = #11271 #11318
[instance] 0x0 #11319
[attach-enode] #11319 0
[end-of-instance]
[mk-app] #11319 not #11272
[mk-app] #11320 or #11319 #11274
[inst-discovered] theory-solving 0x0 basic# ; #11275
[mk-app] #11321 = #11275 #11320
[instance] 0x0 #11321
[attach-enode] #11321 0
[end-of-instance]
[mk-app] #11321 or #11277 #11280
[inst-discovered] theory-solving 0x0 basic# ; #11281
[mk-app] #11322 = #11281 #11321
[instance] 0x0 #11322
[attach-enode] #11322 0
[end-of-instance]
[mk-app] #11322 not #11276
[mk-app] #11323 or #11322 #11277 #11280
[mk-app] #11324 => #11276 #11321
[inst-discovered] theory-solving 0x0 basic# ; #11324
[mk-app] #11325 = #11324 #11323
[instance] 0x0 #11325
[attach-enode] #11325 0
[end-of-instance]
[mk-app] #11321 not #11283
[mk-app] #11324 or #11321 #11286
[inst-discovered] theory-solving 0x0 basic# ; #11287
[mk-app] #11325 = #11287 #11324
[instance] 0x0 #11325
[attach-enode] #11325 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11325 * #365 #186
[inst-discovered] theory-solving 0x0 arith# ; #512
[mk-app] #11325 = #512 #516
[instance] 0x0 #11325
[attach-enode] #11325 0
[end-of-instance]
[mk-app] #11325 <= #11289 #186
[mk-app] #11326 not #11325
[inst-discovered] theory-solving 0x0 arith# ; #11290
[mk-app] #11327 = #11290 #11326
[instance] 0x0 #11327
[attach-enode] #11327 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11327 * #365 #186
[mk-app] #11328 + #11327 #11289
[attach-meaning] #365 arith (- 1)
[mk-app] #11329 * #365 #11289
[mk-app] #11330 + #186 #11329
[mk-app] #11327 >= #11330 #336
[inst-discovered] theory-solving 0x0 arith# ; #11325
[mk-app] #11328 = #11325 #11327
[instance] 0x0 #11328
[attach-enode] #11328 0
[end-of-instance]
[mk-app] #11328 not #11327
[mk-app] #11331 and #516 #11328
[mk-app] #11332 not #11331
[mk-app] #11333 or #11332 #11299
[mk-app] #11334 => #11331 #11299
[inst-discovered] theory-solving 0x0 basic# ; #11334
[mk-app] #11335 = #11334 #11333
[instance] 0x0 #11335
[attach-enode] #11335 0
[end-of-instance]
[mk-app] #11334 or #192 #11332 #11299
[mk-app] #11335 => #185 #11333
[inst-discovered] theory-solving 0x0 basic# ; #11335
[mk-app] #11336 = #11335 #11334
[instance] 0x0 #11336
[attach-enode] #11336 0
[end-of-instance]
[mk-quant] #11333 user_g1__g__chol_diag_0 1 #11302 #11334
[attach-var-names] #11333 (|q$| ; |Poly|)
[mk-app] #11325 not #11288
[mk-app] #11326 or #11325 #11333
[mk-app] #11335 => #11288 #11333
[inst-discovered] theory-solving 0x0 basic# ; #11335
[mk-app] #11336 = #11335 #11326
[instance] 0x0 #11336
[attach-enode] #11336 0
[end-of-instance]
[mk-app] #11335 and #11310 #11312 #11316 #11318 #11320 #11323 #11324 #11326
[mk-app] #11336 = #11253 #11335
[mk-quant] #11337 internal_req__g1!g.chol_diag._definition 11 #11307 #11336
[attach-var-names] #11337 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|div0!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11338 ens%g1!g.chol_diag. #9651 #9652 #10466 #10416 #10417 #11252 #8326 #9 #8 #7 #33
[mk-app] #11339 Add #8326 #291
[mk-app] #11340 I #11339
[mk-app] #11341 R #8
[mk-app] #11342 g1!g.chol_col.? #9651 #9652 #10466 #10417 #11255 #11256 #11340 #11341
[mk-app] #11343 = #11338 #11342
[mk-app] #11344 pattern #11338
[mk-quant] #11345 internal_ens__g1!g.chol_diag._definition 11 #11344 #11343
[attach-var-names] #11345 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|div0!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11346 req%g1!g.chol_below. #9651 #9652 #10466 #10416 #10417 #11252 #8326 #2216 #8 #7 #33
[mk-app] #11347 %%global_location_label%%70
[mk-app] #11348 g1!g.chol_col.? #9651 #9652 #10466 #10416 #11255 #11256 #11076 #11341
[mk-app] #11349 => #11347 #11348
[mk-app] #11350 %%global_location_label%%71
[mk-app] #11351 < #8326 #2216
[mk-app] #11352 < #2216 #11252
[mk-app] #11353 and #11351 #11352
[mk-app] #11354 => #11350 #11353
[mk-app] #11355 %%global_location_label%%72
[mk-app] #11356 g1!g.chol_sum.? #9651 #9652 #10466 #10416 #11255 #11256 #11076 #11256
[mk-app] #11357 = #7 #11356
[mk-app] #11358 => #11355 #11357
[mk-app] #11359 %%global_location_label%%73
[mk-app] #11360 RMul #7 #8
[mk-app] #11361 = #11269 #11360
[mk-app] #11362 => #11359 #11361
[mk-app] #11363 %%global_location_label%%74
[mk-app] #11364 g1!g.ix.? #11076 #11256 #11255
[mk-app] #11365 I #11364
[mk-app] #11366 vstd!seq.Seq.update.? #9651 #9652 #10416 #11365 #33
[mk-app] #11367 = #10417 #11366
[mk-app] #11368 => #11363 #11367
[mk-app] #11369 and #11349 #11354 #11358 #11362 #11368
[mk-app] #11370 = #11346 #11369
[mk-app] #11371 pattern #11346
[mk-quant] #11372 internal_req__g1!g.chol_below._definition 11 #11371 #11370
[attach-var-names] #11372 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11373 not #11347
[mk-app] #11374 or #11373 #11348
[inst-discovered] theory-solving 0x0 basic# ; #11349
[mk-app] #11375 = #11349 #11374
[instance] 0x0 #11375
[attach-enode] #11375 0
[end-of-instance]
[mk-app] #11375 <= #2216 #8326
[mk-app] #11376 not #11375
[inst-discovered] theory-solving 0x0 arith# ; #11351
[mk-app] #11377 = #11351 #11376
[instance] 0x0 #11377
[attach-enode] #11377 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11377 * #365 #8326
[mk-app] #11378 + #2216 #11377
[mk-app] #11379 <= #11378 #336
[inst-discovered] theory-solving 0x0 arith# ; #11375
[mk-app] #11380 = #11375 #11379
[instance] 0x0 #11380
[attach-enode] #11380 0
[end-of-instance]
[mk-app] #11380 not #11379
[mk-app] #11381 <= #11252 #2216
[mk-app] #11382 not #11381
[inst-discovered] theory-solving 0x0 arith# ; #11352
[mk-app] #11383 = #11352 #11382
[instance] 0x0 #11383
[attach-enode] #11383 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11383 + #11091 #11252
[attach-meaning] #365 arith (- 1)
[mk-app] #11384 * #365 #11252
[mk-app] #11385 + #2216 #11384
[mk-app] #11383 >= #11385 #336
[inst-discovered] theory-solving 0x0 arith# ; #11381
[mk-app] #11386 = #11381 #11383
[instance] 0x0 #11386
[attach-enode] #11386 0
[end-of-instance]
[mk-app] #11386 not #11383
[mk-app] #11387 and #11380 #11386
[mk-app] #11388 not #11350
[mk-app] #11389 or #11388 #11387
[mk-app] #11390 => #11350 #11387
[inst-discovered] theory-solving 0x0 basic# ; #11390
[mk-app] #11391 = #11390 #11389
[instance] 0x0 #11391
[attach-enode] #11391 0
[end-of-instance]
[mk-app] #11390 not #11355
[mk-app] #11391 or #11390 #11357
[inst-discovered] theory-solving 0x0 basic# ; #11358
[mk-app] #11392 = #11358 #11391
[instance] 0x0 #11392
[attach-enode] #11392 0
[end-of-instance]
[mk-app] #11392 not #11359
[mk-app] #11393 or #11392 #11361
[inst-discovered] theory-solving 0x0 basic# ; #11362
[mk-app] #11394 = #11362 #11393
[instance] 0x0 #11394
[attach-enode] #11394 0
[end-of-instance]
[mk-app] #11394 not #11363
[mk-app] #11395 or #11394 #11367
[inst-discovered] theory-solving 0x0 basic# ; #11368
[mk-app] #11396 = #11368 #11395
[instance] 0x0 #11396
[attach-enode] #11396 0
[end-of-instance]
[mk-app] #11396 and #11374 #11389 #11391 #11393 #11395
[mk-app] #11397 = #11346 #11396
[mk-quant] #11398 internal_req__g1!g.chol_below._definition 11 #11371 #11397
[attach-var-names] #11398 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11375 ens%g1!g.chol_below. #9651 #9652 #10466 #10416 #10417 #11252 #8326 #2216 #8 #7 #33
[mk-app] #11376 Add #2216 #291
[mk-app] #11381 I #11376
[mk-app] #11382 g1!g.chol_col.? #9651 #9652 #10466 #10417 #11255 #11256 #11381 #11341
[mk-app] #11399 = #11375 #11382
[mk-app] #11400 pattern #11375
[mk-quant] #11401 internal_ens__g1!g.chol_below._definition 11 #11400 #11399
[attach-var-names] #11401 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11402 req%g1!g.chol_close. #1615 #1616 #5623 #63 #2455 #219 #6
[mk-app] #11403 %%global_location_label%%75
[mk-app] #11404 g1!g.chol_col.? #1615 #1616 #5623 #63 #11031 #771 #11031 #139
[mk-app] #11405 => #11403 #11404
[mk-app] #11406 = #11402 #11405
[mk-app] #11407 pattern #11402
[mk-quant] #11408 internal_req__g1!g.chol_close._definition 7 #11407 #11406
[attach-var-names] #11408 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11409 not #11403
[mk-app] #11410 or #11409 #11404
[inst-discovered] theory-solving 0x0 basic# ; #11405
[mk-app] #11411 = #11405 #11410
[instance] 0x0 #11411
[attach-enode] #11411 0
[end-of-instance]
[mk-app] #11411 = #11402 #11410
[mk-quant] #11412 internal_req__g1!g.chol_close._definition 7 #11407 #11411
[attach-var-names] #11412 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11413 ens%g1!g.chol_close. #1615 #1616 #5623 #63 #2455 #219 #6
[mk-app] #11414 I #9228
[mk-app] #11415 g1!g.chol_done.? #1615 #1616 #5623 #63 #11031 #11414
[mk-app] #11416 = #11413 #11415
[mk-app] #11417 pattern #11413
[mk-quant] #11418 internal_ens__g1!g.chol_close._definition 7 #11417 #11416
[attach-var-names] #11418 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11419 req%g1!g.chol_zero_begin. #1593 #263 #32 #122
[mk-app] #11420 %%global_location_label%%76
[mk-app] #11421 => #11420 #339
[mk-app] #11422 %%global_location_label%%77
[mk-app] #11423 => #11422 #11008
[mk-app] #11424 and #11421 #11423
[mk-app] #11425 = #11419 #11424
[mk-app] #11426 pattern #11419
[mk-quant] #11427 internal_req__g1!g.chol_zero_begin._definition 4 #11426 #11425
[attach-var-names] #11427 (|n!| ; |Int|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #11428 * #365 #122
[inst-discovered] theory-solving 0x0 arith# ; #339
[mk-app] #11428 = #339 #348
[instance] 0x0 #11428
[attach-enode] #11428 0
[end-of-instance]
[mk-app] #11428 not #11420
[mk-app] #11429 or #11428 #348
[mk-app] #11430 => #11420 #348
[inst-discovered] theory-solving 0x0 basic# ; #11430
[mk-app] #11431 = #11430 #11429
[instance] 0x0 #11431
[attach-enode] #11431 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11430 + #5201 #11007
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #11008
[mk-app] #11430 = #11008 #11016
[instance] 0x0 #11430
[attach-enode] #11430 0
[end-of-instance]
[mk-app] #11430 not #11422
[mk-app] #11431 or #11430 #11016
[mk-app] #11432 => #11422 #11016
[inst-discovered] theory-solving 0x0 basic# ; #11432
[mk-app] #11433 = #11432 #11431
[instance] 0x0 #11433
[attach-enode] #11433 0
[end-of-instance]
[mk-app] #11432 and #11429 #11431
[mk-app] #11433 = #11419 #11432
[mk-quant] #11434 internal_req__g1!g.chol_zero_begin._definition 4 #11426 #11433
[attach-var-names] #11434 (|n!| ; |Int|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11435 ens%g1!g.chol_zero_begin. #1593 #263 #32 #122
[mk-app] #11436 g1!g.chol_zero.? #1593 #263 #32 #32 #165 #8079 #8079
[mk-app] #11437 = #11435 #11436
[mk-app] #11438 pattern #11435
[mk-quant] #11439 internal_ens__g1!g.chol_zero_begin._definition 4 #11438 #11437
[attach-var-names] #11439 (|n!| ; |Int|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11440 req%g1!g.chol_zero_row. #1592 #1573 #63 #43 #219 #122
[mk-app] #11441 %%global_location_label%%78
[mk-app] #11442 g1!g.chol_zero.? #1592 #1573 #63 #43 #771 #165 #8079
[mk-app] #11443 => #11441 #11442
[mk-app] #11444 %%global_location_label%%79
[mk-app] #11445 < #122 #219
[mk-app] #11446 => #11444 #11445
[mk-app] #11447 and #11443 #11446
[mk-app] #11448 = #11440 #11447
[mk-app] #11449 pattern #11440
[mk-quant] #11450 internal_req__g1!g.chol_zero_row._definition 6 #11449 #11448
[attach-var-names] #11450 (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11451 not #11441
[mk-app] #11452 or #11451 #11442
[inst-discovered] theory-solving 0x0 basic# ; #11443
[mk-app] #11453 = #11443 #11452
[instance] 0x0 #11453
[attach-enode] #11453 0
[end-of-instance]
[mk-app] #11453 <= #219 #122
[mk-app] #11454 not #11453
[inst-discovered] theory-solving 0x0 arith# ; #11445
[mk-app] #11455 = #11445 #11454
[instance] 0x0 #11455
[attach-enode] #11455 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11455 * #365 #122
[mk-app] #11456 + #11455 #219
[attach-meaning] #365 arith (- 1)
[mk-app] #11455 >= #782 #336
[inst-discovered] theory-solving 0x0 arith# ; #11453
[mk-app] #11456 = #11453 #11455
[instance] 0x0 #11456
[attach-enode] #11456 0
[end-of-instance]
[mk-app] #11456 not #11455
[mk-app] #11457 not #11444
[mk-app] #11458 or #11457 #11456
[mk-app] #11459 => #11444 #11456
[inst-discovered] theory-solving 0x0 basic# ; #11459
[mk-app] #11460 = #11459 #11458
[instance] 0x0 #11460
[attach-enode] #11460 0
[end-of-instance]
[mk-app] #11459 and #11452 #11458
[mk-app] #11460 = #11440 #11459
[mk-quant] #11461 internal_req__g1!g.chol_zero_row._definition 6 #11449 #11460
[attach-var-names] #11461 (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11453 ens%g1!g.chol_zero_row. #1592 #1573 #63 #43 #219 #122
[mk-app] #11454 g1!g.chol_zero.? #1592 #1573 #63 #43 #771 #165 #11178
[mk-app] #11462 = #11453 #11454
[mk-app] #11463 pattern #11453
[mk-quant] #11464 internal_ens__g1!g.chol_zero_row._definition 6 #11463 #11462
[attach-var-names] #11464 (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11465 req%g1!g.chol_zero_step. #1615 #1616 #5623 #63 #2455 #219 #122
[mk-app] #11466 %%global_location_label%%80
[mk-app] #11467 g1!g.chol_zero.? #1615 #1616 #5623 #63 #11031 #771 #165
[mk-app] #11468 => #11466 #11467
[mk-app] #11469 %%global_location_label%%81
[mk-app] #11470 and #776 #2665
[mk-app] #11471 => #11469 #11470
[mk-app] #11472 and #11468 #11471
[mk-app] #11473 = #11465 #11472
[mk-app] #11474 pattern #11465
[mk-quant] #11475 internal_req__g1!g.chol_zero_step._definition 7 #11474 #11473
[attach-var-names] #11475 (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11476 not #11466
[mk-app] #11477 or #11476 #11467
[inst-discovered] theory-solving 0x0 basic# ; #11468
[mk-app] #11478 = #11468 #11477
[instance] 0x0 #11478
[attach-enode] #11478 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #632
[mk-app] #11478 = #632 #637
[instance] 0x0 #11478
[attach-enode] #11478 0
[end-of-instance]
[mk-app] #11478 <= #122 #219
[mk-app] #11479 not #11478
[inst-discovered] theory-solving 0x0 arith# ; #775
[mk-app] #11480 = #775 #11479
[instance] 0x0 #11480
[attach-enode] #11480 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #11478
[mk-app] #11480 = #11478 #783
[instance] 0x0 #11480
[attach-enode] #11480 0
[end-of-instance]
[mk-app] #11480 <= #2455 #122
[mk-app] #11481 not #11480
[inst-discovered] theory-solving 0x0 arith# ; #2665
[mk-app] #11482 = #2665 #11481
[instance] 0x0 #11482
[attach-enode] #11482 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11482 * #365 #122
[mk-app] #11483 + #11482 #2455
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #11480
[mk-app] #11482 = #11480 #2679
[instance] 0x0 #11482
[attach-enode] #11482 0
[end-of-instance]
[mk-app] #11482 and #637 #784 #2680
[mk-app] #11483 and #785 #2680
[inst-discovered] theory-solving 0x0 basic# ; #11483
[mk-app] #11484 = #11483 #11482
[instance] 0x0 #11484
[attach-enode] #11484 0
[end-of-instance]
[mk-app] #11483 not #11469
[mk-app] #11484 or #11483 #11482
[mk-app] #11485 => #11469 #11482
[inst-discovered] theory-solving 0x0 basic# ; #11485
[mk-app] #11486 = #11485 #11484
[instance] 0x0 #11486
[attach-enode] #11486 0
[end-of-instance]
[mk-app] #11485 and #11477 #11484
[mk-app] #11486 = #11465 #11485
[mk-quant] #11487 internal_req__g1!g.chol_zero_step._definition 7 #11474 #11486
[attach-var-names] #11487 (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11478 ens%g1!g.chol_zero_step. #1615 #1616 #5623 #63 #2455 #219 #122
[mk-app] #11479 g1!g.ix.? #771 #165 #11031
[mk-app] #11480 vstd!seq.Seq.len.? #1615 #1616 #63
[mk-app] #11481 <= #336 #11479
[mk-app] #11488 < #11479 #11480
[mk-app] #11489 and #11481 #11488
[mk-app] #11490 = #11480 #5630
[mk-app] #11491 g1!g.MatrixDataTypeBase.val.? #3199 #1621 #33
[mk-app] #11492 %R #11491
[mk-app] #11493 = #11492 #602
[mk-app] #11494 vstd!seq.Seq.update.? #3199 #1621 #5623 #11105 #33
[mk-app] #11495 g1!g.chol_zero.? #3199 #1621 #6337 #11494 #11076 #11031 #11414
[mk-app] #11496 => #11493 #11495
[mk-app] #11497 => #1622 #11496
[mk-app] #11498 pattern #11495
[mk-quant] #11499 user_g1__g__chol_zero_step_0 1 #11498 #11497
[attach-var-names] #11499 (|v$| ; |Poly|)
[mk-app] #11500 and #11489 #11490 #11499
[mk-app] #11501 = #11478 #11500
[mk-app] #11502 pattern #11478
[mk-quant] #11503 internal_ens__g1!g.chol_zero_step._definition 7 #11502 #11501
[attach-var-names] #11503 (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[attach-meaning] #365 arith (- 1)
[mk-app] #11504 * #365 #11479
[mk-app] #11505 >= #11479 #336
[inst-discovered] theory-solving 0x0 arith# ; #11481
[mk-app] #11504 = #11481 #11505
[instance] 0x0 #11504
[attach-enode] #11504 0
[end-of-instance]
[mk-app] #11504 <= #11480 #11479
[mk-app] #11506 not #11504
[inst-discovered] theory-solving 0x0 arith# ; #11488
[mk-app] #11507 = #11488 #11506
[instance] 0x0 #11507
[attach-enode] #11507 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11507 * #365 #11479
[mk-app] #11508 + #11507 #11480
[attach-meaning] #365 arith (- 1)
[mk-app] #11509 * #365 #11480
[mk-app] #11510 + #11479 #11509
[mk-app] #11507 >= #11510 #336
[inst-discovered] theory-solving 0x0 arith# ; #11504
[mk-app] #11508 = #11504 #11507
[instance] 0x0 #11508
[attach-enode] #11508 0
[end-of-instance]
[mk-app] #11508 not #11507
[mk-app] #11511 not #11493
[mk-app] #11512 or #11511 #11495
[inst-discovered] theory-solving 0x0 basic# ; #11496
[mk-app] #11513 = #11496 #11512
[instance] 0x0 #11513
[attach-enode] #11513 0
[end-of-instance]
[mk-app] #11513 or #1636 #11511 #11495
[mk-app] #11514 => #1622 #11512
[inst-discovered] theory-solving 0x0 basic# ; #11514
[mk-app] #11515 = #11514 #11513
[instance] 0x0 #11515
[attach-enode] #11515 0
[end-of-instance]
[mk-quant] #11512 user_g1__g__chol_zero_step_0 1 #11498 #11513
[attach-var-names] #11512 (|v$| ; |Poly|)
[mk-app] #11514 and #11505 #11508 #11490 #11512
[mk-app] #11515 = #11478 #11514
[mk-quant] #11516 internal_ens__g1!g.chol_zero_step._definition 7 #11502 #11515
[attach-var-names] #11516 (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11504 req%g1!g.chol_zero_end. #1592 #1573 #63 #43 #219 #122
[mk-app] #11506 %%global_location_label%%82
[mk-app] #11517 g1!g.chol_zero.? #1592 #1573 #63 #43 #771 #165 #771
[mk-app] #11518 => #11506 #11517
[mk-app] #11519 %%global_location_label%%83
[mk-app] #11520 => #11519 #11445
[mk-app] #11521 and #11518 #11520
[mk-app] #11522 = #11504 #11521
[mk-app] #11523 pattern #11504
[mk-quant] #11524 internal_req__g1!g.chol_zero_end._definition 6 #11523 #11522
[attach-var-names] #11524 (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11525 not #11506
[mk-app] #11526 or #11525 #11517
[inst-discovered] theory-solving 0x0 basic# ; #11518
[mk-app] #11527 = #11518 #11526
[instance] 0x0 #11527
[attach-enode] #11527 0
[end-of-instance]
[mk-app] #11527 <= #219 #122
[mk-app] #11528 not #11527
[inst-discovered] theory-solving 0x0 arith# ; #11445
[mk-app] #11529 = #11445 #11528
[instance] 0x0 #11529
[attach-enode] #11529 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11529 * #365 #122
[mk-app] #11530 + #11529 #219
[attach-meaning] #365 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #11527
[mk-app] #11529 = #11527 #11455
[instance] 0x0 #11529
[attach-enode] #11529 0
[end-of-instance]
[mk-app] #11529 not #11519
[mk-app] #11530 or #11529 #11456
[mk-app] #11531 => #11519 #11456
[inst-discovered] theory-solving 0x0 basic# ; #11531
[mk-app] #11532 = #11531 #11530
[instance] 0x0 #11532
[attach-enode] #11532 0
[end-of-instance]
[mk-app] #11531 and #11526 #11530
[mk-app] #11532 = #11504 #11531
[mk-quant] #11533 internal_req__g1!g.chol_zero_end._definition 6 #11523 #11532
[attach-var-names] #11533 (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11527 ens%g1!g.chol_zero_end. #1592 #1573 #63 #43 #219 #122
[mk-app] #11528 g1!g.chol_zero.? #1592 #1573 #63 #43 #771 #11178 #8079
[mk-app] #11534 = #11527 #11528
[mk-app] #11535 pattern #11527
[mk-quant] #11536 internal_ens__g1!g.chol_zero_end._definition 6 #11535 #11534
[attach-var-names] #11536 (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11537 req%g1!g.chol_finish. #1592 #1573 #63 #43 #32 #122
[mk-app] #11538 %%global_location_label%%84
[mk-app] #11539 g1!g.chol_done.? #1592 #1573 #63 #43 #165 #165
[mk-app] #11540 => #11538 #11539
[mk-app] #11541 %%global_location_label%%85
[mk-app] #11542 g1!g.chol_zero.? #1592 #1573 #43 #32 #165 #165 #8079
[mk-app] #11543 => #11541 #11542
[mk-app] #11544 and #11540 #11543
[mk-app] #11545 = #11537 #11544
[mk-app] #11546 pattern #11537
[mk-quant] #11547 internal_req__g1!g.chol_finish._definition 6 #11546 #11545
[attach-var-names] #11547 (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11548 not #11538
[mk-app] #11549 or #11548 #11539
[inst-discovered] theory-solving 0x0 basic# ; #11540
[mk-app] #11550 = #11540 #11549
[instance] 0x0 #11550
[attach-enode] #11550 0
[end-of-instance]
[mk-app] #11550 not #11541
[mk-app] #11551 or #11550 #11542
[inst-discovered] theory-solving 0x0 basic# ; #11543
[mk-app] #11552 = #11543 #11551
[instance] 0x0 #11552
[attach-enode] #11552 0
[end-of-instance]
[mk-app] #11552 and #11549 #11551
[mk-app] #11553 = #11537 #11552
[mk-quant] #11554 internal_req__g1!g.chol_finish._definition 6 #11546 #11553
[attach-var-names] #11554 (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11555 ens%g1!g.chol_finish. #1592 #1573 #63 #43 #32 #122
[mk-app] #11556 g1!g.mx.? #1592 #1573 #63 #165 #165
[mk-app] #11557 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #11556
[mk-app] #11558 g1!g.mx.? #1592 #1573 #32 #165 #165
[mk-app] #11559 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #11558
[mk-app] #11560 g1!g.is_chol.? #11557 #11559 #165
[mk-app] #11561 g1!g.has_chol.? #11557 #165
[mk-app] #11562 I #11007
[mk-app] #11563 g1!g.frame.? #1592 #1573 #63 #32 #11562
[mk-app] #11564 and #11560 #11561 #11563
[mk-app] #11565 = #11555 #11564
[mk-app] #11566 pattern #11555
[mk-quant] #11567 internal_ens__g1!g.chol_finish._definition 6 #11566 #11565
[attach-var-names] #11567 (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11568 req%g1!matrix.traits.MatrixMut.cholesky_decompose_lower. #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #33
[mk-app] #11569 %%global_location_label%%86
[mk-app] #11570 = #9615 #6130
[mk-app] #11571 => #11569 #11570
[mk-app] #11572 %%global_location_label%%87
[mk-app] #11573 > #9615 #336
[mk-app] #11574 => #11572 #11573
[mk-app] #11575 %%global_location_label%%88
[mk-app] #11576 <= #9623 #10312
[mk-app] #11577 => #11575 #11576
[mk-app] #11578 and #11571 #11574 #11577
[mk-app] #11579 = #11568 #11578
[mk-app] #11580 pattern #11568
[mk-quant] #11581 internal_req__g1!matrix.traits.MatrixMut.cholesky_decompose_lower._definition 9 #11580 #11579
[attach-var-names] #11581 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #11582 not #11569
[mk-app] #11583 or #11582 #11570
[inst-discovered] theory-solving 0x0 basic# ; #11571
[mk-app] #11584 = #11571 #11583
[instance] 0x0 #11584
[attach-enode] #11584 0
[end-of-instance]
[mk-app] #11584 <= #9615 #336
[mk-app] #11585 not #11584
[inst-discovered] theory-solving 0x0 arith# ; #11573
[mk-app] #11586 = #11573 #11585
[instance] 0x0 #11586
[attach-enode] #11586 0
[end-of-instance]
[mk-app] #11586 not #11572
[mk-app] #11587 or #11586 #11585
[mk-app] #11588 => #11572 #11585
[inst-discovered] theory-solving 0x0 basic# ; #11588
[mk-app] #11589 = #11588 #11587
[instance] 0x0 #11589
[attach-enode] #11589 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11588 * #365 #10312
[mk-app] #11589 + #9623 #11588
[mk-app] #11590 <= #11589 #336
[inst-discovered] theory-solving 0x0 arith# ; #11576
[mk-app] #11591 = #11576 #11590
[instance] 0x0 #11591
[attach-enode] #11591 0
[end-of-instance]
[mk-app] #11591 not #11575
[mk-app] #11592 or #11591 #11590
[mk-app] #11593 => #11575 #11590
[inst-discovered] theory-solving 0x0 basic# ; #11593
[mk-app] #11594 = #11593 #11592
[instance] 0x0 #11594
[attach-enode] #11594 0
[end-of-instance]
[mk-app] #11593 and #11583 #11587 #11592
[mk-app] #11594 = #11568 #11593
[mk-quant] #11595 internal_req__g1!matrix.traits.MatrixMut.cholesky_decompose_lower._definition 9 #11580 #11594
[attach-var-names] #11595 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #11596 ens%g1!matrix.traits.MatrixMut.cholesky_decompose_lower. #9631 #9599 #9597 #3199 #1621 #1592 #1573 #1593 #263 #32 #33
[mk-app] #11597 I #9639
[mk-app] #11598 g1!g.frame.? #1593 #263 #10104 #10106 #11597
[mk-app] #11599 g1!g.mx.? #1593 #263 #10104 #9696 #9696
[mk-app] #11600 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #11599
[mk-app] #11601 g1!g.mx.? #1593 #263 #10106 #9696 #9696
[mk-app] #11602 Poly%vstd!seq.Seq<vstd!seq.Seq<real.>.>. #11601
[mk-app] #11603 g1!g.is_chol.? #11600 #11602 #9696
[mk-app] #11604 => #175 #11603
[mk-app] #11605 g1!g.has_chol.? #11600 #9696
[mk-app] #11606 = #175 #11605
[mk-app] #11607 and #174 #11598 #11604 #11606
[mk-app] #11608 = #11596 #11607
[mk-app] #11609 pattern #11596
[mk-quant] #11610 internal_ens__g1!matrix.traits.MatrixMut.cholesky_decompose_lower._definition 11 #11609 #11608
[attach-var-names] #11610 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #11611 not #175
[mk-app] #11612 or #11611 #11603
[inst-discovered] theory-solving 0x0 basic# ; #11604
[mk-app] #11613 = #11604 #11612
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 and #174 #11598 #11612 #11606
[mk-app] #11614 = #11596 #11613
[mk-quant] #11615 internal_ens__g1!matrix.traits.MatrixMut.cholesky_decompose_lower._definition 11 #11609 #11614
[attach-var-names] #11615 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[attach-enode] #291 0
[attach-enode] #9119 0
[attach-enode] #336 0
[attach-enode] #602 0
[inst-discovered] theory-solving 0x0 basic# ; #526
[mk-app] #11616 = #526 #526
[instance] 0x0 #11616
[attach-enode] #11616 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1420
[mk-app] #11616 = #1420 #1420
[instance] 0x0 #11616
[attach-enode] #11616 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1453
[mk-app] #11616 = #1453 #1453
[instance] 0x0 #11616
[attach-enode] #11616 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1470
[mk-app] #11616 = #1470 #1470
[instance] 0x0 #11616
[attach-enode] #11616 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1501
[mk-app] #11616 = #1501 #1501
[instance] 0x0 #11616
[attach-enode] #11616 0
[end-of-instance]
[mk-app] #11616 not #1
[inst-discovered] theory-solving 0x0 basic# ; #11616
[mk-app] #11617 = #11616 #2
[instance] 0x0 #11617
[attach-enode] #11617 0
[end-of-instance]
[mk-app] #11616 or #2 #1519
[inst-discovered] theory-solving 0x0 basic# ; #11616
[mk-app] #11617 = #11616 #1519
[instance] 0x0 #11617
[attach-enode] #11617 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2828
[mk-app] #1521 = #2828 #2828
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3002
[mk-app] #1521 = #3002 #3002
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3035
[mk-app] #1521 = #3035 #3035
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3117
[mk-app] #1521 = #3117 #3117
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3124
[mk-app] #1521 = #3124 #3124
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5349
[mk-app] #1521 = #5349 #5349
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5399
[mk-app] #1521 = #5399 #5399
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5417
[mk-app] #1521 = #5417 #5417
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5473
[mk-app] #1521 = #5473 #5473
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5511
[mk-app] #1521 = #5511 #5511
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5543
[mk-app] #1521 = #5543 #5543
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5564
[mk-app] #1521 = #5564 #5564
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5779
[mk-app] #1521 = #5779 #5779
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5885
[mk-app] #1521 = #5885 #5885
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5919
[mk-app] #1521 = #5919 #5919
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5948
[mk-app] #1521 = #5948 #5948
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5964
[mk-app] #1521 = #5964 #5964
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5975
[mk-app] #1521 = #5975 #5975
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #1521 = #6161 #6161
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6180
[mk-app] #1521 = #6180 #6180
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6264
[mk-app] #1521 = #6264 #6264
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6357
[mk-app] #1521 = #6357 #6357
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6400
[mk-app] #1521 = #6400 #6400
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6406
[mk-app] #1521 = #6406 #6406
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8223
[mk-app] #1521 = #8223 #8223
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8513
[mk-app] #1521 = #8513 #8513
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8527
[mk-app] #1521 = #8527 #8527
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8564
[mk-app] #1521 = #8564 #8564
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9126
[mk-app] #1521 = #9126 #9126
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9128
[mk-app] #1521 = #9128 #9128
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9130
[mk-app] #1521 = #9130 #9130
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9132
[mk-app] #1521 = #9132 #9132
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9134
[mk-app] #1521 = #9134 #9134
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9136
[mk-app] #1521 = #9136 #9136
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9138
[mk-app] #1521 = #9138 #9138
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9415
[mk-app] #1521 = #9415 #9415
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[mk-app] #1521 not #9727
[inst-discovered] theory-solving 0x0 basic# ; #9732
[mk-app] #1521 = #9732 #9732
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9736
[mk-app] #1521 = #9736 #9736
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10675
[mk-app] #1521 = #10675 #10675
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10961
[mk-app] #1521 = #10961 #10961
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10961
[mk-app] #1521 = #10961 #10961
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10675
[mk-app] #1521 = #10675 #10675
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[mk-app] #1521 not #9727
[inst-discovered] theory-solving 0x0 basic# ; #9732
[mk-app] #1521 = #9732 #9732
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9736
[mk-app] #1521 = #9736 #9736
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9415
[mk-app] #1521 = #9415 #9415
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9126
[mk-app] #1521 = #9126 #9126
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9128
[mk-app] #1521 = #9128 #9128
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9130
[mk-app] #1521 = #9130 #9130
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9132
[mk-app] #1521 = #9132 #9132
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9134
[mk-app] #1521 = #9134 #9134
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9136
[mk-app] #1521 = #9136 #9136
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9138
[mk-app] #1521 = #9138 #9138
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8564
[mk-app] #1521 = #8564 #8564
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8527
[mk-app] #1521 = #8527 #8527
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8513
[mk-app] #1521 = #8513 #8513
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8223
[mk-app] #1521 = #8223 #8223
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6400
[mk-app] #1521 = #6400 #6400
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6406
[mk-app] #1521 = #6406 #6406
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6357
[mk-app] #1521 = #6357 #6357
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6264
[mk-app] #1521 = #6264 #6264
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6180
[mk-app] #1521 = #6180 #6180
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #1521 = #6161 #6161
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5975
[mk-app] #1521 = #5975 #5975
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5964
[mk-app] #1521 = #5964 #5964
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5948
[mk-app] #1521 = #5948 #5948
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5919
[mk-app] #1521 = #5919 #5919
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5885
[mk-app] #1521 = #5885 #5885
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5779
[mk-app] #1521 = #5779 #5779
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5564
[mk-app] #1521 = #5564 #5564
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5543
[mk-app] #1521 = #5543 #5543
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5511
[mk-app] #1521 = #5511 #5511
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5473
[mk-app] #1521 = #5473 #5473
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5417
[mk-app] #1521 = #5417 #5417
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5399
[mk-app] #1521 = #5399 #5399
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5349
[mk-app] #1521 = #5349 #5349
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3124
[mk-app] #1521 = #3124 #3124
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3117
[mk-app] #1521 = #3117 #3117
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3035
[mk-app] #1521 = #3035 #3035
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3002
[mk-app] #1521 = #3002 #3002
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2828
[mk-app] #1521 = #2828 #2828
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1501
[mk-app] #1521 = #1501 #1501
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1470
[mk-app] #1521 = #1470 #1470
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1453
[mk-app] #1521 = #1453 #1453
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1420
[mk-app] #1521 = #1420 #1420
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #526
[mk-app] #1521 = #526 #526
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #526
[mk-app] #1521 = #526 #526
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1420
[mk-app] #1521 = #1420 #1420
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1453
[mk-app] #1521 = #1453 #1453
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1470
[mk-app] #1521 = #1470 #1470
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1501
[mk-app] #1521 = #1501 #1501
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2828
[mk-app] #1521 = #2828 #2828
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3002
[mk-app] #1521 = #3002 #3002
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3035
[mk-app] #1521 = #3035 #3035
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3117
[mk-app] #1521 = #3117 #3117
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3124
[mk-app] #1521 = #3124 #3124
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5349
[mk-app] #1521 = #5349 #5349
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5399
[mk-app] #1521 = #5399 #5399
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5417
[mk-app] #1521 = #5417 #5417
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5473
[mk-app] #1521 = #5473 #5473
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5511
[mk-app] #1521 = #5511 #5511
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5543
[mk-app] #1521 = #5543 #5543
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5564
[mk-app] #1521 = #5564 #5564
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5779
[mk-app] #1521 = #5779 #5779
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5885
[mk-app] #1521 = #5885 #5885
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5919
[mk-app] #1521 = #5919 #5919
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5948
[mk-app] #1521 = #5948 #5948
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5964
[mk-app] #1521 = #5964 #5964
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5975
[mk-app] #1521 = #5975 #5975
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #1521 = #6161 #6161
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6180
[mk-app] #1521 = #6180 #6180
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6264
[mk-app] #1521 = #6264 #6264
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6357
[mk-app] #1521 = #6357 #6357
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6400
[mk-app] #1521 = #6400 #6400
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6406
[mk-app] #1521 = #6406 #6406
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8223
[mk-app] #1521 = #8223 #8223
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8513
[mk-app] #1521 = #8513 #8513
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8527
[mk-app] #1521 = #8527 #8527
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8564
[mk-app] #1521 = #8564 #8564
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9126
[mk-app] #1521 = #9126 #9126
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9128
[mk-app] #1521 = #9128 #9128
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9130
[mk-app] #1521 = #9130 #9130
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9132
[mk-app] #1521 = #9132 #9132
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9134
[mk-app] #1521 = #9134 #9134
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9136
[mk-app] #1521 = #9136 #9136
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9138
[mk-app] #1521 = #9138 #9138
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9415
[mk-app] #1521 = #9415 #9415
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[mk-app] #1521 not #9727
[inst-discovered] theory-solving 0x0 basic# ; #9732
[mk-app] #1521 = #9732 #9732
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9736
[mk-app] #1521 = #9736 #9736
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10675
[mk-app] #1521 = #10675 #10675
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10961
[mk-app] #1521 = #10961 #10961
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #526
[mk-app] #1521 = #526 #526
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1420
[mk-app] #1521 = #1420 #1420
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1453
[mk-app] #1521 = #1453 #1453
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1470
[mk-app] #1521 = #1470 #1470
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1501
[mk-app] #1521 = #1501 #1501
[instance] 0x0 #1521
[attach-enode] #1521 0
[end-of-instance]
[mk-app] #1521 T%0!skolem_internal_crate__fun__1_constructor_inner_definition!0 #156 #65 #1561
[mk-app] #1522 has_type #1521 #1561
[mk-app] #11616 not #1522
[mk-app] #11617 %%apply%%0 #156 #1521
[mk-app] #11618 has_type #11617 #65
[mk-app] #11619 or #11616 #11618
[mk-app] #11620 not #11619
[mk-app] #11621 or #11620 #1582
[mk-quant] #11622 internal_crate__fun__1_constructor_definition 5 #1584 #11621
[attach-var-names] #11622 (|x| ; |%%Function%%|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11623 not #1619
[mk-app] #11624 not #1620
[mk-app] #11625 T%0!skolem_internal_crate__fun__1_inner_ext_equal_definition!1 #33 #32 #1617 #1561 #1616
[mk-app] #11626 has_type #11625 #1616
[mk-app] #11627 not #11626
[mk-app] #11628 %%apply%%0 #1625 #11625
[mk-app] #11629 %%apply%%0 #1564 #11625
[mk-app] #11630 ext_eq #1617 #1561 #11628 #11629
[mk-app] #11631 or #11627 #11630
[mk-app] #11632 not #11631
[mk-app] #11633 or #11623 #11624 #11632
[mk-app] #11634 or #11633 #1632
[mk-quant] #11635 internal_crate__fun__1_ext_equal_definition 7 #1634 #11634
[attach-var-names] #11635 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11636 or #11623 #11624 #11632 #1632
[inst-discovered] theory-solving 0x0 basic# ; #11636
[mk-app] #11637 = #11636 #11636
[instance] 0x0 #11637
[attach-enode] #11637 0
[end-of-instance]
[mk-quant] #11637 internal_crate__fun__1_ext_equal_definition 7 #1634 #11636
[attach-var-names] #11637 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11633 i!skolem_prelude_has_type_array_elts!2 #156 #219 #263
[mk-app] #11634 >= #11633 #336
[mk-app] #11635 + #11633 #564
[mk-app] #11638 >= #11635 #336
[mk-app] #11639 not #11638
[mk-app] #11640 and #11634 #11639
[mk-app] #11641 not #11640
[mk-app] #11642 %%apply%%1 #156 #11633
[mk-app] #11643 has_type #11642 #263
[mk-app] #11644 or #11641 #11643
[mk-app] #11645 not #11644
[mk-app] #11646 or #11645 #2674
[mk-quant] #11647 prelude_has_type_array_new 4 #2663 #11646
[attach-var-names] #11647 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #11648 + #564 #11633
[inst-discovered] theory-solving 0x0 arith# ; #11635
[mk-app] #11649 = #11635 #11648
[instance] 0x0 #11649
[attach-enode] #11649 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11649 * #365 #11633
[mk-app] #11650 + #219 #11649
[mk-app] #11651 <= #11650 #336
[mk-app] #11652 >= #11648 #336
[inst-discovered] theory-solving 0x0 arith# ; #11652
[mk-app] #11653 = #11652 #11651
[instance] 0x0 #11653
[attach-enode] #11653 0
[end-of-instance]
[mk-app] #11648 not #11651
[mk-app] #11652 and #11634 #11648
[mk-app] #11653 not #11652
[mk-app] #11654 or #11653 #11643
[mk-app] #11655 not #11654
[mk-app] #11656 or #11655 #2674
[mk-quant] #11657 prelude_has_type_array_new 4 #2663 #11656
[attach-var-names] #11657 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #2828
[mk-app] #11645 = #2828 #2828
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3002
[mk-app] #11645 = #3002 #3002
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3035
[mk-app] #11645 = #3035 #3035
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3117
[mk-app] #11645 = #3117 #3117
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3124
[mk-app] #11645 = #3124 #3124
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5349
[mk-app] #11645 = #5349 #5349
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5399
[mk-app] #11645 = #5399 #5399
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5417
[mk-app] #11645 = #5417 #5417
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5473
[mk-app] #11645 = #5473 #5473
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5511
[mk-app] #11645 = #5511 #5511
[instance] 0x0 #11645
[attach-enode] #11645 0
[end-of-instance]
[mk-app] #11645 not #5517
[mk-app] #11646 not #5519
[mk-app] #11647 i$!skolem_user_vstd__seq__lemma_seq_ext_equal_0!3 #33 #32 #263 #1593
[mk-app] #11658 has_type #11647 #184
[mk-app] #11659 not #11658
[mk-app] #11660 %I #11647
[mk-app] #11661 >= #11660 #336
[mk-app] #11662 + #11660 #5201
[mk-app] #11663 >= #11662 #336
[mk-app] #11664 not #11663
[mk-app] #11665 and #11661 #11664
[mk-app] #11666 not #11665
[mk-app] #11667 vstd!seq.Seq.index.? #1593 #263 #32 #11647
[mk-app] #11668 vstd!seq.Seq.index.? #1593 #263 #33 #11647
[mk-app] #11669 = #11667 #11668
[mk-app] #11670 or #11659 #11666 #11669
[mk-app] #11671 not #11670
[mk-app] #11672 or #11646 #11671
[mk-app] #11673 or #11645 #5535
[mk-app] #11674 or #5517 #11672
[mk-app] #11675 and #11673 #11674
[mk-app] #11676 or #5542 #5347 #11675
[mk-quant] #11677 user_vstd__seq__lemma_seq_ext_equal_1 4 #5532 #11676
[attach-var-names] #11677 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11678 or #5544 #11677
[mk-app] #11679 + #5201 #11660
[inst-discovered] theory-solving 0x0 arith# ; #11662
[mk-app] #11680 = #11662 #11679
[instance] 0x0 #11680
[attach-enode] #11680 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11680 * #365 #11660
[mk-app] #11681 + #5190 #11680
[mk-app] #11682 <= #11681 #336
[mk-app] #11683 >= #11679 #336
[inst-discovered] theory-solving 0x0 arith# ; #11683
[mk-app] #11684 = #11683 #11682
[instance] 0x0 #11684
[attach-enode] #11684 0
[end-of-instance]
[mk-app] #11683 not #11682
[mk-app] #11684 and #11661 #11683
[mk-app] #11685 not #11684
[mk-app] #11686 or #11659 #11685 #11669
[mk-app] #11687 not #11686
[mk-app] #11688 or #11646 #11687
[mk-app] #11689 or #5517 #11646 #11687
[mk-app] #11690 or #5517 #11688
[inst-discovered] theory-solving 0x0 basic# ; #11690
[mk-app] #11691 = #11690 #11689
[instance] 0x0 #11691
[attach-enode] #11691 0
[end-of-instance]
[mk-app] #11690 and #11673 #11689
[mk-app] #11691 or #5542 #5347 #11690
[inst-discovered] theory-solving 0x0 basic# ; #11691
[mk-app] #11692 = #11691 #11691
[instance] 0x0 #11692
[attach-enode] #11692 0
[end-of-instance]
[mk-quant] #11692 user_vstd__seq__lemma_seq_ext_equal_1 4 #5532 #11691
[attach-var-names] #11692 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11679 or #5544 #11692
[mk-app] #11674 not #5547
[mk-app] #11675 i$!skolem_user_vstd__seq__lemma_seq_ext_equal_deep_0!4 #33 #32 #263 #1593
[mk-app] #11676 has_type #11675 #184
[mk-app] #11677 not #11676
[mk-app] #11678 %I #11675
[mk-app] #11688 >= #11678 #336
[mk-app] #11693 + #11678 #5201
[mk-app] #11694 >= #11693 #336
[mk-app] #11695 not #11694
[mk-app] #11696 and #11688 #11695
[mk-app] #11697 not #11696
[mk-app] #11698 vstd!seq.Seq.index.? #1593 #263 #32 #11675
[mk-app] #11699 vstd!seq.Seq.index.? #1593 #263 #33 #11675
[mk-app] #11700 ext_eq #1 #263 #11698 #11699
[mk-app] #11701 or #11677 #11697 #11700
[mk-app] #11702 not #11701
[mk-app] #11703 or #11646 #11702
[mk-app] #11704 or #11674 #5559
[mk-app] #11705 or #5547 #11703
[mk-app] #11706 and #11704 #11705
[mk-app] #11707 or #5542 #5347 #11706
[mk-quant] #11708 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #5556 #11707
[attach-var-names] #11708 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11709 or #5565 #11708
[mk-app] #11710 + #5201 #11678
[inst-discovered] theory-solving 0x0 arith# ; #11693
[mk-app] #11711 = #11693 #11710
[instance] 0x0 #11711
[attach-enode] #11711 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11711 * #365 #11678
[mk-app] #11712 + #5190 #11711
[mk-app] #11713 <= #11712 #336
[mk-app] #11714 >= #11710 #336
[inst-discovered] theory-solving 0x0 arith# ; #11714
[mk-app] #11715 = #11714 #11713
[instance] 0x0 #11715
[attach-enode] #11715 0
[end-of-instance]
[mk-app] #11714 not #11713
[mk-app] #11715 and #11688 #11714
[mk-app] #11716 not #11715
[mk-app] #11717 or #11677 #11716 #11700
[mk-app] #11718 not #11717
[mk-app] #11719 or #11646 #11718
[mk-app] #11720 or #5547 #11646 #11718
[mk-app] #11721 or #5547 #11719
[inst-discovered] theory-solving 0x0 basic# ; #11721
[mk-app] #11722 = #11721 #11720
[instance] 0x0 #11722
[attach-enode] #11722 0
[end-of-instance]
[mk-app] #11721 and #11704 #11720
[mk-app] #11722 or #5542 #5347 #11721
[inst-discovered] theory-solving 0x0 basic# ; #11722
[mk-app] #11723 = #11722 #11722
[instance] 0x0 #11723
[attach-enode] #11723 0
[end-of-instance]
[mk-quant] #11723 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #5556 #11722
[attach-var-names] #11723 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11710 or #5565 #11723
[inst-discovered] theory-solving 0x0 basic# ; #5779
[mk-app] #11705 = #5779 #5779
[instance] 0x0 #11705
[attach-enode] #11705 0
[end-of-instance]
[mk-app] #11705 not #5848
[mk-app] #11706 not #5851
[mk-app] #11707 i$!skolem_user_vstd__slice__axiom_slice_ext_equal_0!5 #33 #32 #263 #1593
[mk-app] #11708 has_type #11707 #184
[mk-app] #11709 not #11708
[mk-app] #11719 %I #11707
[mk-app] #11724 >= #11719 #336
[mk-app] #11725 * #365 #5849
[mk-app] #11726 + #11719 #11725
[mk-app] #11727 >= #11726 #336
[mk-app] #11728 not #11727
[mk-app] #11729 and #11724 #11728
[mk-app] #11730 not #11729
[mk-app] #11731 vstd!seq.Seq.index.? #1593 #263 #5827 #11707
[mk-app] #11732 vstd!seq.Seq.index.? #1593 #263 #9605 #11707
[mk-app] #11733 = #11731 #11732
[mk-app] #11734 or #11709 #11730 #11733
[mk-app] #11735 not #11734
[mk-app] #11736 or #11706 #11735
[mk-app] #11737 or #11705 #5873
[mk-app] #11738 or #5848 #11736
[mk-app] #11739 and #11737 #11738
[mk-app] #11740 or #5884 #5347 #11739
[mk-quant] #11741 user_vstd__slice__axiom_slice_ext_equal_1 4 #5870 #11740
[attach-var-names] #11741 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11742 or #5886 #11741
[mk-app] #11743 + #11725 #11719
[inst-discovered] theory-solving 0x0 arith# ; #11726
[mk-app] #11744 = #11726 #11743
[instance] 0x0 #11744
[attach-enode] #11744 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11744 * #365 #11719
[mk-app] #11745 + #5849 #11744
[mk-app] #11746 <= #11745 #336
[mk-app] #11747 >= #11743 #336
[inst-discovered] theory-solving 0x0 arith# ; #11747
[mk-app] #11748 = #11747 #11746
[instance] 0x0 #11748
[attach-enode] #11748 0
[end-of-instance]
[mk-app] #11743 not #11746
[mk-app] #11747 and #11724 #11743
[mk-app] #11748 not #11747
[mk-app] #11749 or #11709 #11748 #11733
[mk-app] #11750 not #11749
[mk-app] #11751 or #11706 #11750
[mk-app] #11752 or #5848 #11706 #11750
[mk-app] #11753 or #5848 #11751
[inst-discovered] theory-solving 0x0 basic# ; #11753
[mk-app] #11754 = #11753 #11752
[instance] 0x0 #11754
[attach-enode] #11754 0
[end-of-instance]
[mk-app] #11753 and #11737 #11752
[mk-app] #11754 or #5884 #5347 #11753
[inst-discovered] theory-solving 0x0 basic# ; #11754
[mk-app] #11755 = #11754 #11754
[instance] 0x0 #11755
[attach-enode] #11755 0
[end-of-instance]
[mk-quant] #11755 user_vstd__slice__axiom_slice_ext_equal_1 4 #5870 #11754
[attach-var-names] #11755 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11751 or #5886 #11755
[inst-discovered] theory-solving 0x0 basic# ; #5919
[mk-app] #11738 = #5919 #5919
[instance] 0x0 #11738
[attach-enode] #11738 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5948
[mk-app] #11738 = #5948 #5948
[instance] 0x0 #11738
[attach-enode] #11738 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5964
[mk-app] #11738 = #5964 #5964
[instance] 0x0 #11738
[attach-enode] #11738 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5975
[mk-app] #11738 = #5975 #5975
[instance] 0x0 #11738
[attach-enode] #11738 0
[end-of-instance]
[mk-app] #11738 not #6129
[mk-app] #11739 i$!skolem_user_vstd__array__axiom_array_ext_equal_0!6 #33 #32 #263 #1593 #1573 #1592
[mk-app] #11740 has_type #11739 #184
[mk-app] #11741 not #11740
[mk-app] #11742 %I #11739
[mk-app] #11756 >= #11742 #336
[mk-app] #11757 + #11742 #6119
[mk-app] #11758 >= #11757 #336
[mk-app] #11759 not #11758
[mk-app] #11760 and #11756 #11759
[mk-app] #11761 not #11760
[mk-app] #11762 vstd!seq.Seq.index.? #1592 #1573 #6081 #11739
[mk-app] #11763 vstd!view.View.view.? #120 #6079 #33
[mk-app] #11764 vstd!seq.Seq.index.? #1592 #1573 #11763 #11739
[mk-app] #11765 = #11762 #11764
[mk-app] #11766 or #11741 #11761 #11765
[mk-app] #11767 not #11766
[mk-app] #11768 or #11738 #6158
[mk-app] #11769 or #6129 #11767
[mk-app] #11770 and #11768 #11769
[mk-app] #11771 or #6160 #6088 #11770
[mk-quant] #11772 user_vstd__array__axiom_array_ext_equal_1 6 #6147 #11771
[attach-var-names] #11772 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11773 or #6162 #11772
[mk-app] #11774 + #6119 #11742
[inst-discovered] theory-solving 0x0 arith# ; #11757
[mk-app] #11775 = #11757 #11774
[instance] 0x0 #11775
[attach-enode] #11775 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #11775 * #365 #11742
[mk-app] #11776 + #3203 #11775
[mk-app] #11777 <= #11776 #336
[mk-app] #11778 >= #11774 #336
[inst-discovered] theory-solving 0x0 arith# ; #11778
[mk-app] #11779 = #11778 #11777
[instance] 0x0 #11779
[attach-enode] #11779 0
[end-of-instance]
[mk-app] #11774 not #11777
[mk-app] #11778 and #11756 #11774
[mk-app] #11779 not #11778
[mk-app] #11780 or #11741 #11779 #11765
[mk-app] #11781 not #11780
[mk-app] #11782 or #6129 #11781
[inst-discovered] theory-solving 0x0 basic# ; #11782
[mk-app] #11783 = #11782 #11782
[instance] 0x0 #11783
[attach-enode] #11783 0
[end-of-instance]
[mk-app] #11783 and #11768 #11782
[mk-app] #11784 or #6160 #6088 #11783
[inst-discovered] theory-solving 0x0 basic# ; #11784
[mk-app] #11785 = #11784 #11784
[instance] 0x0 #11785
[attach-enode] #11785 0
[end-of-instance]
[mk-quant] #11785 user_vstd__array__axiom_array_ext_equal_1 6 #6147 #11784
[attach-var-names] #11785 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11786 or #6162 #11785
[inst-discovered] theory-solving 0x0 basic# ; #6180
[mk-app] #11769 = #6180 #6180
[instance] 0x0 #11769
[attach-enode] #11769 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6264
[mk-app] #11769 = #6264 #6264
[instance] 0x0 #11769
[attach-enode] #11769 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6357
[mk-app] #11769 = #6357 #6357
[instance] 0x0 #11769
[attach-enode] #11769 0
[end-of-instance]
[mk-app] #11769 not #6359
[mk-app] #11770 o$!skolem_user_core__cmp__PartialOrd__le_0!7 #33 #32 #43 #1561 #1560 #1616 #1615
[mk-app] #11771 has_type #11770 #5117
[mk-app] #11772 FNDEF%core!cmp.PartialOrd.partial_cmp. #1615 #1616 #1560 #1561
[mk-app] #11773 REF #1560
[mk-app] #11787 DST #11773
[mk-app] #11788 REF #1615
[mk-app] #11789 TYPE%tuple%2. #11788 #1616 #11773 #1561
[mk-app] #11790 tuple%2./tuple%2 #43 #32
[mk-app] #11791 Poly%tuple%2. #11790
[mk-app] #11792 closure_ens #11772 #11787 #11789 #6328 #11791 #11770
[mk-app] #11793 %Poly%core!option.Option. #11770
[mk-app] #11794 is #11793
[mk-app] #11795 core!option.Option./Some/0 #120 #2096 #11793
[mk-app] #11796 %Poly%core!cmp.Ordering. #11795
[mk-app] #11797 is #11796
[mk-app] #11798 is #11796
[mk-app] #11799 or #11797 #11798
[mk-app] #11800 and #11794 #11799
[mk-app] #11801 = #175 #11800
[mk-app] #11802 and #11771 #11792 #11801
[mk-app] #11803 or #6411 #11802
[mk-app] #11804 and #174 #6403 #11803
[mk-app] #11805 not #6403
[mk-app] #11806 not #6409
[mk-quant] #11807 user_core__cmp__PartialOrd__le_0 1 #6390 #11806
[attach-var-names] #11807 (|o$| ; |Poly|)
[mk-app] #11808 and #6358 #11807
[mk-app] #11809 or #181 #11805 #11808
[mk-app] #11810 or #11769 #11804
[mk-app] #11811 or #6359 #11809
[mk-app] #11812 and #11810 #11811
[mk-quant] #11813 internal_ens__core!cmp.PartialOrd.le._definition 8 #6395 #11812
[attach-var-names] #11813 (|r!| ; |Poly|) (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[inst-discovered] theory-solving 0x0 basic# ; #6400
[mk-app] #11814 = #6400 #6400
[instance] 0x0 #11814
[attach-enode] #11814 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11799
[mk-app] #11814 = #11799 #11799
[instance] 0x0 #11814
[attach-enode] #11814 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6406
[mk-app] #11814 = #6406 #6406
[instance] 0x0 #11814
[attach-enode] #11814 0
[end-of-instance]
[mk-app] #11814 or #6359 #181 #11805 #11808
[inst-discovered] theory-solving 0x0 basic# ; #11814
[mk-app] #11815 = #11814 #11814
[instance] 0x0 #11815
[attach-enode] #11815 0
[end-of-instance]
[mk-app] #11815 and #11810 #11814
[mk-quant] #11816 internal_ens__core!cmp.PartialOrd.le._definition 8 #6395 #11815
[attach-var-names] #11816 (|r!| ; |Poly|) (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[inst-discovered] theory-solving 0x0 basic# ; #8223
[mk-app] #11809 = #8223 #8223
[instance] 0x0 #11809
[attach-enode] #11809 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8513
[mk-app] #11809 = #8513 #8513
[instance] 0x0 #11809
[attach-enode] #11809 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8527
[mk-app] #11809 = #8527 #8527
[instance] 0x0 #11809
[attach-enode] #11809 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8564
[mk-app] #11809 = #8564 #8564
[instance] 0x0 #11809
[attach-enode] #11809 0
[end-of-instance]
[mk-app] #11809 not #8963
[mk-app] #11811 not #8965
[mk-app] #11812 not #8967
[mk-app] #11813 not #8970
[mk-app] #11817 not #8973
[mk-app] #11818 not #8975
[mk-app] #11819 not #8978
[mk-app] #11820 not #8981
[mk-app] #11821 not #8984
[mk-app] #11822 not #8987
[mk-app] #11823 b$!skolem_user_g1__g__laws_hold_0!8 #45 #44
[mk-app] #11824 a$!skolem_user_g1__g__laws_hold_0!9 #45 #44
[mk-app] #11825 has_type #11824 #45
[mk-app] #11826 has_type #11823 #45
[mk-app] #11827 and #11825 #11826
[mk-app] #11828 not #11827
[mk-app] #11829 vstd!std_specs.ops.AddSpec.add_req.? #44 #45 #44 #45 #11824 #11823
[mk-app] #11830 %B #11829
[mk-app] #11831 or #11828 #11830
[mk-app] #11832 not #11831
[mk-app] #11833 b$!skolem_user_g1__g__laws_hold_1!10 #45 #44
[mk-app] #11834 a$!skolem_user_g1__g__laws_hold_1!11 #45 #44
[mk-app] #11835 has_type #11834 #45
[mk-app] #11836 has_type #11833 #45
[mk-app] #11837 and #11835 #11836
[mk-app] #11838 not #11837
[mk-app] #11839 vstd!std_specs.ops.SubSpec.sub_req.? #44 #45 #44 #45 #11834 #11833
[mk-app] #11840 %B #11839
[mk-app] #11841 or #11838 #11840
[mk-app] #11842 not #11841
[mk-app] #11843 b$!skolem_user_g1__g__laws_hold_2!12 #45 #44
[mk-app] #11844 a$!skolem_user_g1__g__laws_hold_2!13 #45 #44
[mk-app] #11845 has_type #11844 #45
[mk-app] #11846 has_type #11843 #45
[mk-app] #11847 and #11845 #11846
[mk-app] #11848 not #11847
[mk-app] #11849 vstd!std_specs.ops.MulSpec.mul_req.? #44 #45 #44 #45 #11844 #11843
[mk-app] #11850 %B #11849
[mk-app] #11851 or #11848 #11850
[mk-app] #11852 not #11851
[mk-app] #11853 b$!skolem_user_g1__g__laws_hold_3!14 #45 #44
[mk-app] #11854 a$!skolem_user_g1__g__laws_hold_3!15 #45 #44
[mk-app] #11855 has_type #11854 #45
[mk-app] #11856 has_type #11853 #45
[mk-app] #11857 and #11855 #11856
[mk-app] #11858 not #11857
[mk-app] #11859 vstd!std_specs.ops.DivSpec.div_req.? #44 #45 #44 #45 #11854 #11853
[mk-app] #11860 %B #11859
[mk-app] #11861 or #11858 #11860
[mk-app] #11862 not #11861
[mk-app] #11863 a$!skolem_user_g1__g__laws_hold_4!16 #45 #44
[mk-app] #11864 has_type #11863 #45
[mk-app] #11865 not #11864
[mk-app] #11866 vstd!std_specs.ops.NegSpec.neg_req.? #44 #45 #11863
[mk-app] #11867 %B #11866
[mk-app] #11868 or #11865 #11867
[mk-app] #11869 not #11868
[mk-app] #11870 b$!skolem_user_g1__g__laws_hold_5!17 #45 #44
[mk-app] #11871 a$!skolem_user_g1__g__laws_hold_5!18 #45 #44
[mk-app] #11872 has_type #11871 #45
[mk-app] #11873 has_type #11870 #45
[mk-app] #11874 and #11872 #11873
[mk-app] #11875 not #11874
[mk-app] #11876 vstd!std_specs.ops.AddAssignSpec.add_assign_req.? #44 #45 #44 #45 #11871 #11870
[mk-app] #11877 %B #11876
[mk-app] #11878 or #11875 #11877
[mk-app] #11879 not #11878
[mk-app] #11880 b$!skolem_user_g1__g__laws_hold_6!19 #45 #44
[mk-app] #11881 a$!skolem_user_g1__g__laws_hold_6!20 #45 #44
[mk-app] #11882 has_type #11881 #45
[mk-app] #11883 has_type #11880 #45
[mk-app] #11884 and #11882 #11883
[mk-app] #11885 not #11884
[mk-app] #11886 vstd!std_specs.ops.SubAssignSpec.sub_assign_req.? #44 #45 #44 #45 #11881 #11880
[mk-app] #11887 %B #11886
[mk-app] #11888 or #11885 #11887
[mk-app] #11889 not #11888
[mk-app] #11890 b$!skolem_user_g1__g__laws_hold_7!21 #45 #44
[mk-app] #11891 a$!skolem_user_g1__g__laws_hold_7!22 #45 #44
[mk-app] #11892 has_type #11891 #45
[mk-app] #11893 has_type #11890 #45
[mk-app] #11894 and #11892 #11893
[mk-app] #11895 not #11894
[mk-app] #11896 vstd!std_specs.ops.AddSpec.add_spec.? #44 #45 #44 #45 #11891 #11890
[mk-app] #11897 g1!g.MatrixDataTypeBase.val.? #44 #45 #11896
[mk-app] #11898 %R #11897
[mk-app] #11899 g1!g.MatrixDataTypeBase.val.? #44 #45 #11891
[mk-app] #11900 %R #11899
[mk-app] #11901 g1!g.MatrixDataTypeBase.val.? #44 #45 #11890
[mk-app] #11902 %R #11901
[mk-app] #11903 RAdd #11900 #11902
[mk-app] #11904 = #11898 #11903
[mk-app] #11905 or #11895 #11904
[mk-app] #11906 not #11905
[mk-app] #11907 b$!skolem_user_g1__g__laws_hold_8!23 #45 #44
[mk-app] #11908 a$!skolem_user_g1__g__laws_hold_8!24 #45 #44
[mk-app] #11909 has_type #11908 #45
[mk-app] #11910 has_type #11907 #45
[mk-app] #11911 and #11909 #11910
[mk-app] #11912 not #11911
[mk-app] #11913 vstd!std_specs.ops.SubSpec.sub_spec.? #44 #45 #44 #45 #11908 #11907
[mk-app] #11914 g1!g.MatrixDataTypeBase.val.? #44 #45 #11913
[mk-app] #11915 %R #11914
[mk-app] #11916 g1!g.MatrixDataTypeBase.val.? #44 #45 #11908
[mk-app] #11917 %R #11916
[mk-app] #11918 g1!g.MatrixDataTypeBase.val.? #44 #45 #11907
[mk-app] #11919 %R #11918
[mk-app] #11920 RSub #11917 #11919
[mk-app] #11921 = #11915 #11920
[mk-app] #11922 or #11912 #11921
[mk-app] #11923 not #11922
[mk-app] #11924 b$!skolem_user_g1__g__laws_hold_9!25 #45 #44
[mk-app] #11925 a$!skolem_user_g1__g__laws_hold_9!26 #45 #44
[mk-app] #11926 has_type #11925 #45
[mk-app] #11927 has_type #11924 #45
[mk-app] #11928 and #11926 #11927
[mk-app] #11929 not #11928
[mk-app] #11930 vstd!std_specs.ops.MulSpec.mul_spec.? #44 #45 #44 #45 #11925 #11924
[mk-app] #11931 g1!g.MatrixDataTypeBase.val.? #44 #45 #11930
[mk-app] #11932 %R #11931
[mk-app] #11933 g1!g.MatrixDataTypeBase.val.? #44 #45 #11925
[mk-app] #11934 %R #11933
[mk-app] #11935 g1!g.MatrixDataTypeBase.val.? #44 #45 #11924
[mk-app] #11936 %R #11935
[mk-app] #11937 RMul #11934 #11936
[mk-app] #11938 = #11932 #11937
[mk-app] #11939 or #11929 #11938
[mk-app] #11940 not #11939
[mk-app] #11941 b$!skolem_user_g1__g__laws_hold_10!27 #45 #44
[mk-app] #11942 a$!skolem_user_g1__g__laws_hold_10!28 #45 #44
[mk-app] #11943 has_type #11942 #45
[mk-app] #11944 has_type #11941 #45
[mk-app] #11945 and #11943 #11944
[mk-app] #11946 not #11945
[mk-app] #11947 g1!g.MatrixDataTypeBase.val.? #44 #45 #11941
[mk-app] #11948 %R #11947
[mk-app] #11949 = #11948 #602
[mk-app] #11950 vstd!std_specs.ops.DivSpec.div_spec.? #44 #45 #44 #45 #11942 #11941
[mk-app] #11951 g1!g.MatrixDataTypeBase.val.? #44 #45 #11950
[mk-app] #11952 %R #11951
[mk-app] #11953 g1!g.MatrixDataTypeBase.val.? #44 #45 #11942
[mk-app] #11954 %R #11953
[mk-app] #11955 RDiv #11954 #11948
[mk-app] #11956 = #11952 #11955
[mk-app] #11957 or #11946 #11949 #11956
[mk-app] #11958 not #11957
[mk-app] #11959 a$!skolem_user_g1__g__laws_hold_11!29 #45 #44
[mk-app] #11960 has_type #11959 #45
[mk-app] #11961 not #11960
[mk-app] #11962 vstd!std_specs.ops.NegSpec.neg_spec.? #44 #45 #11959
[mk-app] #11963 g1!g.MatrixDataTypeBase.val.? #44 #45 #11962
[mk-app] #11964 %R #11963
[mk-app] #11965 g1!g.MatrixDataTypeBase.val.? #44 #45 #11959
[mk-app] #11966 %R #11965
[mk-app] #11967 RSub #602 #11966
[mk-app] #11968 = #11964 #11967
[mk-app] #11969 or #11961 #11968
[mk-app] #11970 not #11969
[mk-app] #11971 b$!skolem_user_g1__g__laws_hold_12!30 #45 #44
[mk-app] #11972 a$!skolem_user_g1__g__laws_hold_12!31 #45 #44
[mk-app] #11973 has_type #11972 #45
[mk-app] #11974 has_type #11971 #45
[mk-app] #11975 and #11973 #11974
[mk-app] #11976 not #11975
[mk-app] #11977 vstd!std_specs.ops.AddAssignSpec.add_assign_spec.? #44 #45 #44 #45 #11972 #11971
[mk-app] #11978 g1!g.MatrixDataTypeBase.val.? #44 #45 #11977
[mk-app] #11979 %R #11978
[mk-app] #11980 g1!g.MatrixDataTypeBase.val.? #44 #45 #11972
[mk-app] #11981 %R #11980
[mk-app] #11982 g1!g.MatrixDataTypeBase.val.? #44 #45 #11971
[mk-app] #11983 %R #11982
[mk-app] #11984 RAdd #11981 #11983
[mk-app] #11985 = #11979 #11984
[mk-app] #11986 or #11976 #11985
[mk-app] #11987 not #11986
[mk-app] #11988 b$!skolem_user_g1__g__laws_hold_13!32 #45 #44
[mk-app] #11989 a$!skolem_user_g1__g__laws_hold_13!33 #45 #44
[mk-app] #11990 has_type #11989 #45
[mk-app] #11991 has_type #11988 #45
[mk-app] #11992 and #11990 #11991
[mk-app] #11993 not #11992
[mk-app] #11994 vstd!std_specs.ops.SubAssignSpec.sub_assign_spec.? #44 #45 #44 #45 #11989 #11988
[mk-app] #11995 g1!g.MatrixDataTypeBase.val.? #44 #45 #11994
[mk-app] #11996 %R #11995
[mk-app] #11997 g1!g.MatrixDataTypeBase.val.? #44 #45 #11989
[mk-app] #11998 %R #11997
[mk-app] #11999 g1!g.MatrixDataTypeBase.val.? #44 #45 #11988
[mk-app] #12000 %R #11999
[mk-app] #12001 RSub #11998 #12000
[mk-app] #12002 = #11996 #12001
[mk-app] #12003 or #11993 #12002
[mk-app] #12004 not #12003
[mk-app] #12005 b$!skolem_user_g1__g__laws_hold_14!34 #45 #44
[mk-app] #12006 a$!skolem_user_g1__g__laws_hold_14!35 #45 #44
[mk-app] #12007 has_type #12006 #45
[mk-app] #12008 has_type #12005 #45
[mk-app] #12009 and #12007 #12008
[mk-app] #12010 not #12009
[mk-app] #12011 vstd!std_specs.cmp.PartialEqSpec.eq_spec.? #44 #45 #44 #45 #12006 #12005
[mk-app] #12012 %B #12011
[mk-app] #12013 g1!g.MatrixDataTypeBase.val.? #44 #45 #12006
[mk-app] #12014 g1!g.MatrixDataTypeBase.val.? #44 #45 #12005
[mk-app] #12015 = #12013 #12014
[mk-app] #12016 = #12012 #12015
[mk-app] #12017 or #12010 #12016
[mk-app] #12018 not #12017
[mk-app] #12019 b$!skolem_user_g1__g__laws_hold_15!36 #45 #44
[mk-app] #12020 a$!skolem_user_g1__g__laws_hold_15!37 #45 #44
[mk-app] #12021 has_type #12020 #45
[mk-app] #12022 has_type #12019 #45
[mk-app] #12023 and #12021 #12022
[mk-app] #12024 not #12023
[mk-app] #12025 vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.? #44 #45 #44 #45 #12020 #12019
[mk-app] #12026 %Poly%core!option.Option. #12025
[mk-app] #12027 g1!g.MatrixDataTypeBase.val.? #44 #45 #12020
[mk-app] #12028 %R #12027
[mk-app] #12029 g1!g.MatrixDataTypeBase.val.? #44 #45 #12019
[mk-app] #12030 %R #12029
[mk-app] #12031 * #599 #12030
[mk-app] #12032 + #12028 #12031
[mk-app] #12033 >= #12032 #602
[mk-app] #12034 = #12027 #12029
[mk-app] #12035 if #12034 #6436 #6433
[mk-app] #12036 if #12033 #12035 #6429
[mk-app] #12037 = #12026 #12036
[mk-app] #12038 or #12024 #12037
[mk-app] #12039 not #12038
[mk-app] #12040 not #9115
[mk-app] #12041 not #9120
[mk-app] #12042 or #11811 #11812 #11813 #11817 #11818 #11819 #11820 #11821 #11822 #11832 #11842 #11852 #11862 #11869 #11879 #11889 #11906 #11923 #11940 #11958 #11970 #11987 #12004 #12018 #12039 #12040 #12041
[mk-app] #12043 or #11809 #9159
[mk-app] #12044 or #8963 #12042
[mk-app] #12045 and #12043 #12044
[mk-quant] #12046 internal_g1!g.laws_hold.?_definition 2 #9123 #12045
[attach-var-names] #12046 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12047 or #9166 #12046
[inst-discovered] theory-solving 0x0 basic# ; #9126
[mk-app] #12048 = #9126 #9126
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9128
[mk-app] #12048 = #9128 #9128
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9130
[mk-app] #12048 = #9130 #9130
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9132
[mk-app] #12048 = #9132 #9132
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9134
[mk-app] #12048 = #9134 #9134
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9136
[mk-app] #12048 = #9136 #9136
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9138
[mk-app] #12048 = #9138 #9138
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11831
[mk-app] #12048 = #11831 #11831
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11841
[mk-app] #12048 = #11841 #11841
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11851
[mk-app] #12048 = #11851 #11851
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11861
[mk-app] #12048 = #11861 #11861
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11868
[mk-app] #12048 = #11868 #11868
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11878
[mk-app] #12048 = #11878 #11878
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11888
[mk-app] #12048 = #11888 #11888
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12042
[mk-app] #12048 = #12042 #12042
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[mk-app] #12048 or #8963 #11811 #11812 #11813 #11817 #11818 #11819 #11820 #11821 #11822 #11832 #11842 #11852 #11862 #11869 #11879 #11889 #11906 #11923 #11940 #11958 #11970 #11987 #12004 #12018 #12039 #12040 #12041
[inst-discovered] theory-solving 0x0 basic# ; #12044
[mk-app] #12049 = #12044 #12048
[instance] 0x0 #12049
[attach-enode] #12049 0
[end-of-instance]
[mk-app] #12049 and #12043 #12048
[mk-quant] #12050 internal_g1!g.laws_hold.?_definition 2 #9123 #12049
[attach-var-names] #12050 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12051 or #9166 #12050
[inst-discovered] theory-solving 0x0 basic# ; #9415
[mk-app] #12044 = #9415 #9415
[instance] 0x0 #12044
[attach-enode] #12044 0
[end-of-instance]
[mk-app] #12044 not #9705
[mk-app] #12045 i$!skolem_user_g1__matrix__traits__Matrix__index_agrees_0!38 #33 #65 #64 #1561 #1560 #1616 #1615 #9581 #9580
[mk-app] #12046 has_type #12045 #203
[mk-app] #12047 not #12046
[mk-app] #12052 %I #12045
[mk-app] #12053 + #12052 #9601
[mk-app] #12054 >= #12053 #336
[mk-app] #12055 g1!g.Index.index_req.? #9580 #9581 #120 #203 #33 #12045
[mk-app] #12056 %B #12055
[mk-app] #12057 = #12054 #12056
[mk-app] #12058 not #12057
[mk-app] #12059 or #12047 #12058
[mk-app] #12060 not #12059
[mk-app] #12061 i$!skolem_user_g1__matrix__traits__Matrix__index_agrees_1!39 #33 #65 #64 #1561 #1560 #1616 #1615 #9581 #9580
[mk-app] #12062 has_type #12061 #203
[mk-app] #12063 not #12062
[mk-app] #12064 %I #12061
[mk-app] #12065 + #12064 #9601
[mk-app] #12066 >= #12065 #336
[mk-app] #12067 g1!g.Index.index_val.? #9580 #9581 #120 #203 #33 #12061
[mk-app] #12068 vstd!seq.Seq.index.? #64 #65 #9583 #12061
[mk-app] #12069 = #12067 #12068
[mk-app] #12070 or #12063 #12066 #12069
[mk-app] #12071 not #12070
[mk-app] #12072 or #12060 #12071
[mk-app] #12073 or #12044 #9726
[mk-app] #12074 or #9705 #12072
[mk-app] #12075 and #12073 #12074
[mk-quant] #12076 internal_ens__g1!matrix.traits.Matrix.index_agrees._definition 9 #9723 #12075
[attach-var-names] #12076 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12077 not #9727
[inst-discovered] theory-solving 0x0 basic# ; #9732
[mk-app] #12077 = #9732 #9732
[instance] 0x0 #12077
[attach-enode] #12077 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9736
[mk-app] #12077 = #9736 #9736
[instance] 0x0 #12077
[attach-enode] #12077 0
[end-of-instance]
[mk-app] #12077 + #9601 #12052
[inst-discovered] theory-solving 0x0 arith# ; #12053
[mk-app] #12078 = #12053 #12077
[instance] 0x0 #12078
[attach-enode] #12078 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12078 * #365 #12052
[mk-app] #12079 + #9592 #12078
[mk-app] #12080 <= #12079 #336
[mk-app] #12081 >= #12077 #336
[inst-discovered] theory-solving 0x0 arith# ; #12081
[mk-app] #12082 = #12081 #12080
[instance] 0x0 #12082
[attach-enode] #12082 0
[end-of-instance]
[mk-app] #12077 = #12080 #12056
[mk-app] #12081 not #12080
[mk-app] #12082 not #12077
[inst-discovered] theory-solving 0x0 basic# ; #12082
[mk-app] #12081 = #12082 #12082
[instance] 0x0 #12081
[attach-enode] #12081 0
[end-of-instance]
[mk-app] #12081 or #12047 #12082
[mk-app] #12083 not #12081
[mk-app] #12084 + #9601 #12064
[inst-discovered] theory-solving 0x0 arith# ; #12065
[mk-app] #12085 = #12065 #12084
[instance] 0x0 #12085
[attach-enode] #12085 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12085 * #365 #12064
[mk-app] #12086 + #9592 #12085
[mk-app] #12087 <= #12086 #336
[mk-app] #12088 >= #12084 #336
[inst-discovered] theory-solving 0x0 arith# ; #12088
[mk-app] #12089 = #12088 #12087
[instance] 0x0 #12089
[attach-enode] #12089 0
[end-of-instance]
[mk-app] #12084 or #12063 #12087 #12069
[inst-discovered] theory-solving 0x0 basic# ; #12084
[mk-app] #12088 = #12084 #12084
[instance] 0x0 #12088
[attach-enode] #12088 0
[end-of-instance]
[mk-app] #12088 not #12084
[mk-app] #12089 or #12083 #12088
[inst-discovered] theory-solving 0x0 basic# ; #12089
[mk-app] #12090 = #12089 #12089
[instance] 0x0 #12090
[attach-enode] #12090 0
[end-of-instance]
[mk-app] #12090 or #9705 #12083 #12088
[mk-app] #12091 or #9705 #12089
[inst-discovered] theory-solving 0x0 basic# ; #12091
[mk-app] #12092 = #12091 #12090
[instance] 0x0 #12092
[attach-enode] #12092 0
[end-of-instance]
[mk-app] #12091 and #12073 #12090
[mk-quant] #12092 internal_ens__g1!matrix.traits.Matrix.index_agrees._definition 9 #9723 #12091
[attach-var-names] #12092 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12074 not #9852
[mk-app] #12075 m$!skolem_user_g1__matrix__traits__Matrix__inspect_0!40 #33 #1573 #9851 #9850
[mk-app] #12076 has_type #12075 #9851
[mk-app] #12089 not #12076
[mk-app] #12093 REF #9850
[mk-app] #12094 DST #12093
[mk-app] #12095 TYPE%tuple%1. #12093 #9851
[mk-app] #12096 tuple%1./tuple%1 #12075
[mk-app] #12097 Poly%tuple%1. #12096
[mk-app] #12098 closure_req #1573 #12094 #12095 #33 #12097
[mk-app] #12099 or #12089 #12098
[mk-app] #12100 not #12099
[mk-app] #12101 and #9853 #12100
[mk-app] #12102 or #12074 #9872
[mk-app] #12103 or #9852 #12101
[mk-app] #12104 and #12102 #12103
[mk-quant] #12105 internal_req__g1!matrix.traits.Matrix.inspect._definition 14 #9866 #12104
[attach-var-names] #12105 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12106 or #12074 #9871 #9870
[inst-discovered] theory-solving 0x0 basic# ; #12102
[mk-app] #12107 = #12102 #12106
[instance] 0x0 #12107
[attach-enode] #12107 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12103
[mk-app] #12107 = #12103 #12103
[instance] 0x0 #12107
[attach-enode] #12107 0
[end-of-instance]
[mk-app] #12107 and #12106 #12103
[mk-quant] #12108 internal_req__g1!matrix.traits.Matrix.inspect._definition 14 #9866 #12107
[attach-var-names] #12108 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12102 not #9878
[mk-app] #12104 f0$!skolem_user_g1__matrix__traits__Matrix__inspect_1!41 #33 #43 #1616 #9854 #9856
[mk-app] #12105 has_type #12104 #1616
[mk-app] #12109 tuple%1./tuple%1 #43
[mk-app] #12110 Poly%tuple%1. #12109
[mk-app] #12111 closure_ens #1616 #9858 #9859 #12104 #12110 #33
[mk-app] #12112 and #12105 #12111
[mk-app] #12113 and #5445 #12112
[mk-app] #12114 not #9887
[mk-quant] #12115 user_g1__matrix__traits__Matrix__inspect_1 1 #9888 #12114
[attach-var-names] #12115 (|f0$| ; |Poly|)
[mk-app] #12116 or #8033 #12115
[mk-app] #12117 or #12102 #12113
[mk-app] #12118 or #9878 #12116
[mk-app] #12119 and #12117 #12118
[mk-quant] #12120 internal_ens__g1!matrix.traits.Matrix.inspect._definition 16 #9892 #12119
[attach-var-names] #12120 (|r!| ; |Poly|) (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12121 and #5445 #12105 #12111
[inst-discovered] theory-solving 0x0 basic# ; #12113
[mk-app] #12122 = #12113 #12121
[instance] 0x0 #12122
[attach-enode] #12122 0
[end-of-instance]
[mk-app] #12122 or #12102 #12121
[mk-app] #12123 or #9878 #8033 #12115
[inst-discovered] theory-solving 0x0 basic# ; #12123
[mk-app] #12124 = #12123 #12123
[instance] 0x0 #12124
[attach-enode] #12124 0
[end-of-instance]
[mk-app] #12124 and #12122 #12123
[mk-quant] #12125 internal_ens__g1!matrix.traits.Matrix.inspect._definition 16 #9892 #12124
[attach-var-names] #12125 (|r!| ; |Poly|) (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12126 not #9920
[mk-app] #12127 not #9922
[mk-app] #12128 q$!skolem_user_g1__g__frame_0!42 #33 #32 #43 #1561 #1560
[mk-app] #12129 has_type #12128 #184
[mk-app] #12130 not #12129
[mk-app] #12131 %I #12128
[mk-app] #12132 * #365 #186
[mk-app] #12133 + #12131 #12132
[mk-app] #12134 >= #12133 #336
[mk-app] #12135 * #365 #9921
[mk-app] #12136 + #12131 #12135
[mk-app] #12137 >= #12136 #336
[mk-app] #12138 not #12137
[mk-app] #12139 and #12134 #12138
[mk-app] #12140 not #12139
[mk-app] #12141 vstd!seq.Seq.index.? #1560 #1561 #32 #12128
[mk-app] #12142 vstd!seq.Seq.index.? #1560 #1561 #43 #12128
[mk-app] #12143 = #12141 #12142
[mk-app] #12144 or #12130 #12140 #12143
[mk-app] #12145 not #12144
[mk-app] #12146 or #12127 #12145
[mk-app] #12147 or #12126 #9938
[mk-app] #12148 or #9920 #12146
[mk-app] #12149 and #12147 #12148
[mk-quant] #12150 internal_g1!g.frame.?_definition 5 #9935 #12149
[attach-var-names] #12150 (|n!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12151 or #9949 #12150
[mk-app] #12152 + #12132 #12131
[inst-discovered] theory-solving 0x0 arith# ; #12133
[mk-app] #12153 = #12133 #12152
[instance] 0x0 #12153
[attach-enode] #12153 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12153 * #365 #12131
[mk-app] #12154 + #186 #12153
[mk-app] #12155 <= #12154 #336
[mk-app] #12156 >= #12152 #336
[inst-discovered] theory-solving 0x0 arith# ; #12156
[mk-app] #12157 = #12156 #12155
[instance] 0x0 #12157
[attach-enode] #12157 0
[end-of-instance]
[mk-app] #12156 + #12135 #12131
[inst-discovered] theory-solving 0x0 arith# ; #12136
[mk-app] #12157 = #12136 #12156
[instance] 0x0 #12157
[attach-enode] #12157 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12157 + #9921 #12153
[mk-app] #12158 <= #12157 #336
[mk-app] #12159 >= #12156 #336
[inst-discovered] theory-solving 0x0 arith# ; #12159
[mk-app] #12160 = #12159 #12158
[instance] 0x0 #12160
[attach-enode] #12160 0
[end-of-instance]
[mk-app] #12156 not #12158
[mk-app] #12159 and #12155 #12156
[mk-app] #12160 not #12159
[mk-app] #12161 or #12130 #12160 #12143
[mk-app] #12162 not #12161
[mk-app] #12163 or #12127 #12162
[mk-app] #12164 or #9920 #12127 #12162
[mk-app] #12165 or #9920 #12163
[inst-discovered] theory-solving 0x0 basic# ; #12165
[mk-app] #12166 = #12165 #12164
[instance] 0x0 #12166
[attach-enode] #12166 0
[end-of-instance]
[mk-app] #12165 and #12147 #12164
[mk-quant] #12166 internal_g1!g.frame.?_definition 5 #9935 #12165
[attach-var-names] #12166 (|n!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12163 or #9949 #12166
[mk-app] #12148 not #9974
[mk-app] #12149 not #9989
[mk-app] #12150 i$!skolem_user_g1__matrix__traits__Matrix__get_column_copy_0!43 #33 #32 #43 #1561 #1560 #1616 #1615 #9581 #9580 #9652 #9651
[mk-app] #12151 has_type #12150 #184
[mk-app] #12152 not #12151
[mk-app] #12167 %I #12150
[mk-app] #12168 >= #12167 #336
[mk-app] #12169 + #12167 #9674
[mk-app] #12170 >= #12169 #336
[mk-app] #12171 not #12170
[mk-app] #12172 and #12168 #12171
[mk-app] #12173 not #12172
[mk-app] #12174 vstd!seq.Seq.index.? #1560 #1561 #9975 #12150
[mk-app] #12175 g1!g.ix.? #12150 #32 #10043
[mk-app] #12176 I #12175
[mk-app] #12177 vstd!seq.Seq.index.? #1560 #1561 #9663 #12176
[mk-app] #12178 = #12174 #12177
[mk-app] #12179 or #12152 #12173 #12178
[mk-app] #12180 not #12179
[mk-app] #12181 or #12149 #12180
[mk-app] #12182 or #12148 #10016
[mk-app] #12183 or #9974 #12181
[mk-app] #12184 and #12182 #12183
[mk-quant] #12185 internal_ens__g1!matrix.traits.Matrix.get_column_copy._definition 12 #10014 #12184
[attach-var-names] #12185 (|col_data!| ; |Poly|) (|column!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12186 + #9674 #12167
[inst-discovered] theory-solving 0x0 arith# ; #12169
[mk-app] #12187 = #12169 #12186
[instance] 0x0 #12187
[attach-enode] #12187 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12187 * #365 #12167
[mk-app] #12188 + #9655 #12187
[mk-app] #12189 <= #12188 #336
[mk-app] #12190 >= #12186 #336
[inst-discovered] theory-solving 0x0 arith# ; #12190
[mk-app] #12191 = #12190 #12189
[instance] 0x0 #12191
[attach-enode] #12191 0
[end-of-instance]
[mk-app] #12186 not #12189
[mk-app] #12190 and #12168 #12186
[mk-app] #12191 not #12190
[mk-app] #12192 or #12152 #12191 #12178
[mk-app] #12193 not #12192
[mk-app] #12194 or #12149 #12193
[mk-app] #12195 or #9974 #12149 #12193
[mk-app] #12196 or #9974 #12194
[inst-discovered] theory-solving 0x0 basic# ; #12196
[mk-app] #12197 = #12196 #12195
[instance] 0x0 #12197
[attach-enode] #12197 0
[end-of-instance]
[mk-app] #12196 and #12182 #12195
[mk-quant] #12197 internal_ens__g1!matrix.traits.Matrix.get_column_copy._definition 12 #10014 #12196
[attach-var-names] #12197 (|col_data!| ; |Poly|) (|column!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12183 not #10042
[mk-app] #12184 not #10057
[mk-app] #12185 j$!skolem_user_g1__matrix__traits__Matrix__get_row_copy_0!44 #33 #32 #43 #1561 #1560 #1616 #1615 #9581 #9580 #9652 #9651
[mk-app] #12194 has_type #12185 #184
[mk-app] #12198 not #12194
[mk-app] #12199 %I #12185
[mk-app] #12200 >= #12199 #336
[mk-app] #12201 + #12199 #9683
[mk-app] #12202 >= #12201 #336
[mk-app] #12203 not #12202
[mk-app] #12204 and #12200 #12203
[mk-app] #12205 not #12204
[mk-app] #12206 vstd!seq.Seq.index.? #1560 #1561 #9975 #12185
[mk-app] #12207 g1!g.ix.? #32 #12185 #10043
[mk-app] #12208 I #12207
[mk-app] #12209 vstd!seq.Seq.index.? #1560 #1561 #9663 #12208
[mk-app] #12210 = #12206 #12209
[mk-app] #12211 or #12198 #12205 #12210
[mk-app] #12212 not #12211
[mk-app] #12213 or #12184 #12212
[mk-app] #12214 or #12183 #10071
[mk-app] #12215 or #10042 #12213
[mk-app] #12216 and #12214 #12215
[mk-quant] #12217 internal_ens__g1!matrix.traits.Matrix.get_row_copy._definition 12 #10069 #12216
[attach-var-names] #12217 (|row_data!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12218 + #9683 #12199
[inst-discovered] theory-solving 0x0 arith# ; #12201
[mk-app] #12219 = #12201 #12218
[instance] 0x0 #12219
[attach-enode] #12219 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12219 * #365 #12199
[mk-app] #12220 + #9615 #12219
[mk-app] #12221 <= #12220 #336
[mk-app] #12222 >= #12218 #336
[inst-discovered] theory-solving 0x0 arith# ; #12222
[mk-app] #12223 = #12222 #12221
[instance] 0x0 #12223
[attach-enode] #12223 0
[end-of-instance]
[mk-app] #12218 not #12221
[mk-app] #12222 and #12200 #12218
[mk-app] #12223 not #12222
[mk-app] #12224 or #12198 #12223 #12210
[mk-app] #12225 not #12224
[mk-app] #12226 or #12184 #12225
[mk-app] #12227 or #10042 #12184 #12225
[mk-app] #12228 or #10042 #12226
[inst-discovered] theory-solving 0x0 basic# ; #12228
[mk-app] #12229 = #12228 #12227
[instance] 0x0 #12229
[attach-enode] #12229 0
[end-of-instance]
[mk-app] #12228 and #12214 #12227
[mk-quant] #12229 internal_ens__g1!matrix.traits.Matrix.get_row_copy._definition 12 #10069 #12228
[attach-var-names] #12229 (|row_data!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12215 not #10165
[mk-app] #12216 post$!skolem_user_g1__matrix__traits__MatrixMut__index_mut_agrees_0!45 #33 #65 #64 #1561 #1560 #1616 #1615 #9581 #9580
[mk-app] #12217 v$!skolem_user_g1__matrix__traits__MatrixMut__index_mut_agrees_0!46 #33 #65 #64 #1561 #1560 #1616 #1615 #9581 #9580
[mk-app] #12226 i$!skolem_user_g1__matrix__traits__MatrixMut__index_mut_agrees_0!47 #33 #65 #64 #1561 #1560 #1616 #1615 #9581 #9580
[mk-app] #12230 has_type #12226 #203
[mk-app] #12231 has_type #12217 #65
[mk-app] #12232 has_type #12216 #9581
[mk-app] #12233 and #12230 #12231 #12232
[mk-app] #12234 not #12233
[mk-app] #12235 %I #12226
[mk-app] #12236 + #12235 #9601
[mk-app] #12237 >= #12236 #336
[mk-app] #12238 not #12237
[mk-app] #12239 g1!g.IndexMut.index_post.? #9580 #9581 #120 #203 #33 #12226 #12217 #12216
[mk-app] #12240 %B #12239
[mk-app] #12241 and #12238 #12240
[mk-app] #12242 not #12241
[mk-app] #12243 g1!matrix.row_major.RowMajorSequentialData.data.? #9580 #9581 #1615 #1616 #1560 #1561 #64 #65 #12216
[mk-app] #12244 vstd!seq.Seq.update.? #64 #65 #9583 #12226 #12217
[mk-app] #12245 = #12243 #12244
[mk-app] #12246 or #12234 #12242 #12245
[mk-app] #12247 not #12246
[mk-app] #12248 or #12215 #10192
[mk-app] #12249 or #10165 #12247
[mk-app] #12250 and #12248 #12249
[mk-quant] #12251 internal_ens__g1!matrix.traits.MatrixMut.index_mut_agrees._definition 9 #10182 #12250
[attach-var-names] #12251 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12252 + #9601 #12235
[inst-discovered] theory-solving 0x0 arith# ; #12236
[mk-app] #12253 = #12236 #12252
[instance] 0x0 #12253
[attach-enode] #12253 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12253 * #365 #12235
[mk-app] #12254 + #9592 #12253
[mk-app] #12255 <= #12254 #336
[mk-app] #12256 >= #12252 #336
[inst-discovered] theory-solving 0x0 arith# ; #12256
[mk-app] #12257 = #12256 #12255
[instance] 0x0 #12257
[attach-enode] #12257 0
[end-of-instance]
[mk-app] #12252 not #12255
[mk-app] #12256 and #12252 #12240
[mk-app] #12257 not #12256
[mk-app] #12258 or #12234 #12257 #12245
[mk-app] #12259 not #12258
[mk-app] #12260 or #10165 #12259
[inst-discovered] theory-solving 0x0 basic# ; #12260
[mk-app] #12261 = #12260 #12260
[instance] 0x0 #12261
[attach-enode] #12261 0
[end-of-instance]
[mk-app] #12261 and #12248 #12260
[mk-quant] #12262 internal_ens__g1!matrix.traits.MatrixMut.index_mut_agrees._definition 9 #10182 #12261
[attach-var-names] #12262 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12249 not #10195
[mk-app] #12250 m$!skolem_user_g1__matrix__traits__MatrixMut__apply_0!48 #33 #1573 #9851 #9850
[mk-app] #12251 MUTREF #9850 #9851
[mk-app] #12263 has_type #12250 #12251
[mk-app] #12264 not #12263
[mk-app] #12265 TYPE%tuple%1. #120 #12251
[mk-app] #12266 tuple%1./tuple%1 #12250
[mk-app] #12267 Poly%tuple%1. #12266
[mk-app] #12268 closure_req #1573 #5143 #12265 #33 #12267
[mk-app] #12269 or #12264 #12268
[mk-app] #12270 not #12269
[mk-app] #12271 and #10196 #12270
[mk-app] #12272 or #12249 #10212
[mk-app] #12273 or #10195 #12271
[mk-app] #12274 and #12272 #12273
[mk-quant] #12275 internal_req__g1!matrix.traits.MatrixMut.apply._definition 14 #10206 #12274
[attach-var-names] #12275 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12276 or #12249 #10211 #10210
[inst-discovered] theory-solving 0x0 basic# ; #12272
[mk-app] #12277 = #12272 #12276
[instance] 0x0 #12277
[attach-enode] #12277 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12273
[mk-app] #12277 = #12273 #12273
[instance] 0x0 #12277
[attach-enode] #12277 0
[end-of-instance]
[mk-app] #12277 and #12276 #12273
[mk-quant] #12278 internal_req__g1!matrix.traits.MatrixMut.apply._definition 14 #10206 #12277
[attach-var-names] #12278 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12272 not #10215
[mk-app] #12274 m$!skolem_user_g1__matrix__traits__MatrixMut__apply_1!49 #33 #43 #1616 #9581 #9580 #9652 #9651 #9877 #9876 #9854 #9856
[mk-app] #12275 f0$!skolem_user_g1__matrix__traits__MatrixMut__apply_1!50 #33 #43 #1616 #9581 #9580 #9652 #9651 #9877 #9876 #9854 #9856
[mk-app] #12279 has_type #12275 #1616
[mk-app] #12280 has_type #12274 #10197
[mk-app] #12281 tuple%1./tuple%1 #12274
[mk-app] #12282 Poly%tuple%1. #12281
[mk-app] #12283 closure_ens #1616 #5143 #10199 #12275 #12282 #33
[mk-app] #12284 mut_ref_current% #12274
[mk-app] #12285 g1!matrix.row_major.RowMajorSequentialData.data.? #9856 #9854 #9876 #9877 #9651 #9652 #9580 #9581 #12284
[mk-app] #12286 g1!matrix.row_major.RowMajorSequentialData.data.? #9856 #9854 #9876 #9877 #9651 #9652 #9580 #9581 #48
[mk-app] #12287 = #12285 #12286
[mk-app] #12288 mut_ref_future% #12274
[mk-app] #12289 g1!matrix.row_major.RowMajorSequentialData.data.? #9856 #9854 #9876 #9877 #9651 #9652 #9580 #9581 #12288
[mk-app] #12290 g1!matrix.row_major.RowMajorSequentialData.data.? #9856 #9854 #9876 #9877 #9651 #9652 #9580 #9581 #56
[mk-app] #12291 = #12289 #12290
[mk-app] #12292 and #12279 #12280 #12283 #12287 #12291
[mk-app] #12293 and #5445 #12292
[mk-app] #12294 not #10241
[mk-quant] #12295 user_g1__matrix__traits__MatrixMut__apply_1 2 #10235 #12294
[attach-var-names] #12295 (|m$| ; |Poly|) (|f0$| ; |Poly|)
[mk-app] #12296 or #8033 #12295
[mk-app] #12297 or #12272 #12293
[mk-app] #12298 or #10215 #12296
[mk-app] #12299 and #12297 #12298
[mk-quant] #12300 internal_ens__g1!matrix.traits.MatrixMut.apply._definition 16 #10239 #12299
[attach-var-names] #12300 (|r!| ; |Poly|) (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12301 and #5445 #12279 #12280 #12283 #12287 #12291
[inst-discovered] theory-solving 0x0 basic# ; #12293
[mk-app] #12302 = #12293 #12301
[instance] 0x0 #12302
[attach-enode] #12302 0
[end-of-instance]
[mk-app] #12302 or #12272 #12301
[mk-app] #12303 or #10215 #8033 #12295
[inst-discovered] theory-solving 0x0 basic# ; #12303
[mk-app] #12304 = #12303 #12303
[instance] 0x0 #12304
[attach-enode] #12304 0
[end-of-instance]
[mk-app] #12304 and #12302 #12303
[mk-quant] #12305 internal_ens__g1!matrix.traits.MatrixMut.apply._definition 16 #10239 #12304
[attach-var-names] #12305 (|r!| ; |Poly|) (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12293 not #10246
[mk-app] #12297 not #10251
[mk-app] #12296 i$!skolem_user_core__slice__impl&%0__fill_0!51 #33 #32 #263 #1593
[mk-app] #12298 has_type #12296 #184
[mk-app] #12299 not #12298
[mk-app] #12300 %I #12296
[mk-app] #12306 >= #12300 #336
[mk-app] #12307 * #365 #10250
[mk-app] #12308 + #12300 #12307
[mk-app] #12309 >= #12308 #336
[mk-app] #12310 not #12309
[mk-app] #12311 and #12306 #12310
[mk-app] #12312 not #12311
[mk-app] #12313 vstd!seq.Seq.index.? #1593 #263 #10247 #12296
[mk-app] #12314 = #12313 #33
[mk-app] #12315 or #12299 #12312 #12314
[mk-app] #12316 not #12315
[mk-app] #12317 or #12297 #12316
[mk-app] #12318 or #12293 #10267
[mk-app] #12319 or #10246 #12317
[mk-app] #12320 and #12318 #12319
[mk-quant] #12321 internal_ens__core!slice.impl&__0.fill._definition 4 #10265 #12320
[attach-var-names] #12321 (|value!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12322 + #12307 #12300
[inst-discovered] theory-solving 0x0 arith# ; #12308
[mk-app] #12323 = #12308 #12322
[instance] 0x0 #12323
[attach-enode] #12323 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12323 * #365 #12300
[mk-app] #12324 + #10250 #12323
[mk-app] #12325 <= #12324 #336
[mk-app] #12326 >= #12322 #336
[inst-discovered] theory-solving 0x0 arith# ; #12326
[mk-app] #12327 = #12326 #12325
[instance] 0x0 #12327
[attach-enode] #12327 0
[end-of-instance]
[mk-app] #12322 not #12325
[mk-app] #12326 and #12306 #12322
[mk-app] #12327 not #12326
[mk-app] #12328 or #12299 #12327 #12314
[mk-app] #12329 not #12328
[mk-app] #12330 or #12297 #12329
[mk-app] #12331 or #10246 #12297 #12329
[mk-app] #12332 or #10246 #12330
[inst-discovered] theory-solving 0x0 basic# ; #12332
[mk-app] #12333 = #12332 #12331
[instance] 0x0 #12333
[attach-enode] #12333 0
[end-of-instance]
[mk-app] #12332 and #12318 #12331
[mk-quant] #12333 internal_ens__core!slice.impl&__0.fill._definition 4 #10265 #12332
[attach-var-names] #12333 (|value!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12319 not #10278
[mk-app] #12320 not #10280
[mk-app] #12321 q$!skolem_user_g1__matrix__traits__MatrixMut__set_all_0!52 #33 #32 #263 #1593 #1573 #1592 #1621 #3199 #9597 #9599
[mk-app] #12330 has_type #12321 #184
[mk-app] #12334 not #12330
[mk-app] #12335 %I #12321
[mk-app] #12336 >= #12335 #336
[mk-app] #12337 + #12335 #10119
[mk-app] #12338 >= #12337 #336
[mk-app] #12339 not #12338
[mk-app] #12340 and #12336 #12339
[mk-app] #12341 not #12340
[mk-app] #12342 vstd!seq.Seq.index.? #1593 #263 #10106 #12321
[mk-app] #12343 = #12342 #33
[mk-app] #12344 or #12334 #12341 #12343
[mk-app] #12345 not #12344
[mk-app] #12346 or #12320 #12345
[mk-app] #12347 or #12319 #10296
[mk-app] #12348 or #10278 #12346
[mk-app] #12349 and #12347 #12348
[mk-quant] #12350 internal_ens__g1!matrix.traits.MatrixMut.set_all._definition 11 #10294 #12349
[attach-var-names] #12350 (|value!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12351 + #10119 #12335
[inst-discovered] theory-solving 0x0 arith# ; #12337
[mk-app] #12352 = #12337 #12351
[instance] 0x0 #12352
[attach-enode] #12352 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12352 * #365 #12335
[mk-app] #12353 + #10109 #12352
[mk-app] #12354 <= #12353 #336
[mk-app] #12355 >= #12351 #336
[inst-discovered] theory-solving 0x0 arith# ; #12355
[mk-app] #12356 = #12355 #12354
[instance] 0x0 #12356
[attach-enode] #12356 0
[end-of-instance]
[mk-app] #12351 not #12354
[mk-app] #12355 and #12336 #12351
[mk-app] #12356 not #12355
[mk-app] #12357 or #12334 #12356 #12343
[mk-app] #12358 not #12357
[mk-app] #12359 or #12320 #12358
[mk-app] #12360 or #10278 #12320 #12358
[mk-app] #12361 or #10278 #12359
[inst-discovered] theory-solving 0x0 basic# ; #12361
[mk-app] #12362 = #12361 #12360
[instance] 0x0 #12362
[attach-enode] #12362 0
[end-of-instance]
[mk-app] #12361 and #12347 #12360
[mk-quant] #12362 internal_ens__g1!matrix.traits.MatrixMut.set_all._definition 11 #10294 #12361
[attach-var-names] #12362 (|value!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12348 not #10308
[mk-app] #12349 not #10313
[mk-app] #12350 q$!skolem_user_g1__matrix__traits__MatrixMut__clear_0!53 #33 #65 #64 #1561 #1560 #1616 #1615 #9581 #9580
[mk-app] #12359 has_type #12350 #184
[mk-app] #12363 not #12359
[mk-app] #12364 %I #12350
[mk-app] #12365 >= #12364 #336
[mk-app] #12366 + #12364 #11588
[mk-app] #12367 >= #12366 #336
[mk-app] #12368 not #12367
[mk-app] #12369 and #12365 #12368
[mk-app] #12370 not #12369
[mk-app] #12371 vstd!seq.Seq.index.? #64 #65 #10309 #12350
[mk-app] #12372 = #12371 #8644
[mk-app] #12373 or #12363 #12370 #12372
[mk-app] #12374 not #12373
[mk-app] #12375 or #12349 #12374
[mk-app] #12376 or #12348 #10327
[mk-app] #12377 or #10308 #12375
[mk-app] #12378 and #12376 #12377
[mk-quant] #12379 internal_ens__g1!matrix.traits.MatrixMut.clear._definition 10 #10325 #12378
[attach-var-names] #12379 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12380 + #11588 #12364
[inst-discovered] theory-solving 0x0 arith# ; #12366
[mk-app] #12381 = #12366 #12380
[instance] 0x0 #12381
[attach-enode] #12381 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12381 * #365 #12364
[mk-app] #12382 + #10312 #12381
[mk-app] #12383 <= #12382 #336
[mk-app] #12384 >= #12380 #336
[inst-discovered] theory-solving 0x0 arith# ; #12384
[mk-app] #12385 = #12384 #12383
[instance] 0x0 #12385
[attach-enode] #12385 0
[end-of-instance]
[mk-app] #12380 not #12383
[mk-app] #12384 and #12365 #12380
[mk-app] #12385 not #12384
[mk-app] #12386 or #12363 #12385 #12372
[mk-app] #12387 not #12386
[mk-app] #12388 or #12349 #12387
[mk-app] #12389 or #10308 #12349 #12387
[mk-app] #12390 or #10308 #12388
[inst-discovered] theory-solving 0x0 basic# ; #12390
[mk-app] #12391 = #12390 #12389
[instance] 0x0 #12391
[attach-enode] #12391 0
[end-of-instance]
[mk-app] #12390 and #12376 #12389
[mk-quant] #12391 internal_ens__g1!matrix.traits.MatrixMut.clear._definition 10 #10325 #12390
[attach-var-names] #12391 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12377 not #10361
[mk-app] #12378 q$!skolem_user_g1__matrix__traits__MatrixMut__set_zero_0!54 #33 #65 #64 #1561 #1560 #1616 #1615 #9581 #9580
[mk-app] #12379 has_type #12378 #184
[mk-app] #12388 not #12379
[mk-app] #12392 %I #12378
[mk-app] #12393 >= #12392 #336
[mk-app] #12394 + #12392 #11588
[mk-app] #12395 >= #12394 #336
[mk-app] #12396 not #12395
[mk-app] #12397 and #12393 #12396
[mk-app] #12398 not #12397
[mk-app] #12399 vstd!seq.Seq.index.? #64 #65 #10309 #12378
[mk-app] #12400 = #12399 #8644
[mk-app] #12401 or #12388 #12398 #12400
[mk-app] #12402 not #12401
[mk-app] #12403 or #12349 #12402
[mk-app] #12404 or #12377 #10367
[mk-app] #12405 or #10361 #12403
[mk-app] #12406 and #12404 #12405
[mk-quant] #12407 internal_ens__g1!matrix.traits.MatrixMut.set_zero._definition 10 #10365 #12406
[attach-var-names] #12407 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12408 + #11588 #12392
[inst-discovered] theory-solving 0x0 arith# ; #12394
[mk-app] #12409 = #12394 #12408
[instance] 0x0 #12409
[attach-enode] #12409 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12409 * #365 #12392
[mk-app] #12410 + #10312 #12409
[mk-app] #12411 <= #12410 #336
[mk-app] #12412 >= #12408 #336
[inst-discovered] theory-solving 0x0 arith# ; #12412
[mk-app] #12413 = #12412 #12411
[instance] 0x0 #12413
[attach-enode] #12413 0
[end-of-instance]
[mk-app] #12408 not #12411
[mk-app] #12412 and #12393 #12408
[mk-app] #12413 not #12412
[mk-app] #12414 or #12388 #12413 #12400
[mk-app] #12415 not #12414
[mk-app] #12416 or #12349 #12415
[mk-app] #12417 or #10361 #12349 #12415
[mk-app] #12418 or #10361 #12416
[inst-discovered] theory-solving 0x0 basic# ; #12418
[mk-app] #12419 = #12418 #12417
[instance] 0x0 #12419
[attach-enode] #12419 0
[end-of-instance]
[mk-app] #12418 and #12404 #12417
[mk-quant] #12419 internal_ens__g1!matrix.traits.MatrixMut.set_zero._definition 10 #10365 #12418
[attach-var-names] #12419 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #12405 not #10523
[mk-app] #12406 not #10555
[mk-app] #12407 not #10557
[mk-app] #12416 not #10528
[mk-app] #12420 not #10533
[mk-app] #12421 i$!skolem_user_vstd__std_specs__iter__impl&%11__wf_0!55 #33 #65 #64
[mk-app] #12422 has_type #12421 #184
[mk-app] #12423 not #12422
[mk-app] #12424 %I #12421
[mk-app] #12425 >= #12424 #336
[mk-app] #12426 * #365 #10499
[mk-app] #12427 + #12424 #12426
[mk-app] #12428 >= #12427 #336
[mk-app] #12429 not #12428
[mk-app] #12430 and #12425 #12429
[mk-app] #12431 not #12430
[mk-app] #12432 vstd!seq.Seq.index.? #2268 #2269 #2267 #12421
[mk-app] #12433 vstd!seq.Seq.index.? #2268 #2269 #10508 #12421
[mk-app] #12434 = #12432 #12433
[mk-app] #12435 or #12423 #12431 #12434
[mk-app] #12436 not #12435
[mk-app] #12437 or #12420 #12436
[mk-app] #12438 and #10531 #12437
[mk-app] #12439 or #12406 #12407 #12416 #12438
[mk-app] #12440 or #12405 #10569
[mk-app] #12441 or #10523 #12439
[mk-app] #12442 and #12440 #12441
[mk-quant] #12443 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #10551 #12442
[attach-var-names] #12443 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12444 or #10572 #12443
[mk-app] #12445 + #12426 #12424
[inst-discovered] theory-solving 0x0 arith# ; #12427
[mk-app] #12446 = #12427 #12445
[instance] 0x0 #12446
[attach-enode] #12446 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12446 * #365 #12424
[mk-app] #12447 + #10499 #12446
[mk-app] #12448 <= #12447 #336
[mk-app] #12449 >= #12445 #336
[inst-discovered] theory-solving 0x0 arith# ; #12449
[mk-app] #12450 = #12449 #12448
[instance] 0x0 #12450
[attach-enode] #12450 0
[end-of-instance]
[mk-app] #12445 not #12448
[mk-app] #12449 and #12425 #12445
[mk-app] #12450 not #12449
[mk-app] #12451 or #12423 #12450 #12434
[mk-app] #12452 not #12451
[mk-app] #12453 or #12420 #12452
[mk-app] #12454 and #10531 #12453
[mk-app] #12455 or #12406 #12407 #12416 #12454
[inst-discovered] theory-solving 0x0 basic# ; #12455
[mk-app] #12456 = #12455 #12455
[instance] 0x0 #12456
[attach-enode] #12456 0
[end-of-instance]
[mk-app] #12456 or #10523 #12406 #12407 #12416 #12454
[mk-app] #12457 or #10523 #12455
[inst-discovered] theory-solving 0x0 basic# ; #12457
[mk-app] #12458 = #12457 #12456
[instance] 0x0 #12458
[attach-enode] #12458 0
[end-of-instance]
[mk-app] #12457 and #12440 #12456
[mk-quant] #12458 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #10551 #12457
[attach-var-names] #12458 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12455 or #10572 #12458
[mk-app] #12441 not #10602
[mk-app] #12442 m$!skolem_user_vstd__std_specs__iter__impl&%11__next_0!56 #2110 #32 #263 #1593
[mk-app] #12443 has_type #12442 #4816
[mk-app] #12444 FNDEF%core!iter.traits.iterator.Iterator.next. #1593 #263
[mk-app] #12459 TYPE%tuple%1. #120 #4816
[mk-app] #12460 tuple%1./tuple%1 #12442
[mk-app] #12461 Poly%tuple%1. #12460
[mk-app] #12462 closure_ens #12444 #5143 #12459 #6328 #12461 #2111
[mk-app] #12463 mut_ref_current% #12442
[mk-app] #12464 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #10614
[mk-app] #12465 = #12463 #12464
[mk-app] #12466 mut_ref_future% #12442
[mk-app] #12467 = #12466 #10617
[mk-app] #12468 and #12443 #12462 #12465 #12467
[mk-app] #12469 and #10603 #10606 #10667 #10616 #10669 #10673 #10675 #10674 #10677 #12468
[mk-app] #12470 not #10603
[mk-app] #12471 not #10606
[mk-app] #12472 not #10667
[mk-app] #12473 not #10616
[mk-app] #12474 not #10669
[mk-app] #12475 not #10673
[mk-app] #12476 not #10675
[mk-app] #12477 not #10674
[mk-app] #12478 not #10677
[mk-app] #12479 not #10678
[mk-quant] #12480 user_vstd__std_specs__iter__impl&%11__next_0 1 #10658 #10659 #12479
[attach-var-names] #12480 (|m$| ; |Poly|)
[mk-app] #12481 or #12470 #12471 #12472 #12473 #12474 #12475 #12476 #12477 #12478 #12480
[mk-app] #12482 or #12441 #12469
[mk-app] #12483 or #10602 #12481
[mk-app] #12484 and #12482 #12483
[mk-quant] #12485 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #10663 #12484
[attach-var-names] #12485 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #10675
[mk-app] #12486 = #10675 #10675
[instance] 0x0 #12486
[attach-enode] #12486 0
[end-of-instance]
[mk-app] #12486 and #10603 #10606 #10667 #10616 #10669 #10673 #10675 #10674 #10677 #12443 #12462 #12465 #12467
[inst-discovered] theory-solving 0x0 basic# ; #12469
[mk-app] #12487 = #12469 #12486
[instance] 0x0 #12487
[attach-enode] #12487 0
[end-of-instance]
[mk-app] #12487 or #12441 #12486
[mk-app] #12488 or #10602 #12470 #12471 #12472 #12473 #12474 #12475 #12476 #12477 #12478 #12480
[inst-discovered] theory-solving 0x0 basic# ; #12488
[mk-app] #12489 = #12488 #12488
[instance] 0x0 #12489
[attach-enode] #12489 0
[end-of-instance]
[mk-app] #12489 and #12487 #12488
[mk-quant] #12490 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #10663 #12489
[attach-var-names] #12490 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12469 not #10822
[mk-app] #12482 not #10824
[mk-app] #12481 i$!skolem_user_g1__g__is_mx_0!57 #33 #32 #43
[mk-app] #12483 has_type #12481 #184
[mk-app] #12484 not #12483
[mk-app] #12485 %I #12481
[mk-app] #12491 >= #12485 #336
[mk-app] #12492 + #12485 #5268
[mk-app] #12493 >= #12492 #336
[mk-app] #12494 not #12493
[mk-app] #12495 and #12491 #12494
[mk-app] #12496 not #12495
[mk-app] #12497 vstd!seq.Seq.index.? #120 #2056 #43 #12481
[mk-app] #12498 vstd!seq.Seq.len.? #120 #140 #12497
[mk-app] #12499 = #12498 #186
[mk-app] #12500 or #12484 #12496 #12499
[mk-app] #12501 not #12500
[mk-app] #12502 or #12482 #12501
[mk-app] #12503 or #12469 #10837
[mk-app] #12504 or #10822 #12502
[mk-app] #12505 and #12503 #12504
[mk-quant] #12506 internal_g1!g.is_mx.?_definition 3 #10834 #12505
[attach-var-names] #12506 (|c!| ; |Poly|) (|r!| ; |Poly|) (|a!| ; |Poly|)
[mk-app] #12507 or #10844 #12506
[mk-app] #12508 + #5268 #12485
[inst-discovered] theory-solving 0x0 arith# ; #12492
[mk-app] #12509 = #12492 #12508
[instance] 0x0 #12509
[attach-enode] #12509 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12509 * #365 #12485
[mk-app] #12510 + #676 #12509
[mk-app] #12511 <= #12510 #336
[mk-app] #12512 >= #12508 #336
[inst-discovered] theory-solving 0x0 arith# ; #12512
[mk-app] #12513 = #12512 #12511
[instance] 0x0 #12513
[attach-enode] #12513 0
[end-of-instance]
[mk-app] #12508 not #12511
[mk-app] #12512 and #12491 #12508
[mk-app] #12513 not #12512
[mk-app] #12514 or #12484 #12513 #12499
[mk-app] #12515 not #12514
[mk-app] #12516 or #12482 #12515
[mk-app] #12517 or #10822 #12482 #12515
[mk-app] #12518 or #10822 #12516
[inst-discovered] theory-solving 0x0 basic# ; #12518
[mk-app] #12519 = #12518 #12517
[instance] 0x0 #12519
[attach-enode] #12519 0
[end-of-instance]
[mk-app] #12518 and #12503 #12517
[mk-quant] #12519 internal_g1!g.is_mx.?_definition 3 #10834 #12518
[attach-var-names] #12519 (|c!| ; |Poly|) (|r!| ; |Poly|) (|a!| ; |Poly|)
[mk-app] #12516 or #10844 #12519
[mk-app] #12504 not #10848
[mk-app] #12505 j$!skolem_user_g1__g__lower_0!58 #33 #32
[mk-app] #12506 i$!skolem_user_g1__g__lower_0!59 #33 #32
[mk-app] #12507 has_type #12506 #184
[mk-app] #12520 has_type #12505 #184
[mk-app] #12521 and #12507 #12520
[mk-app] #12522 not #12521
[mk-app] #12523 %I #12506
[mk-app] #12524 >= #12523 #336
[mk-app] #12525 %I #12505
[mk-app] #12526 * #365 #12523
[mk-app] #12527 + #12525 #12526
[mk-app] #12528 <= #12527 #336
[mk-app] #12529 not #12528
[mk-app] #12530 + #12525 #12132
[mk-app] #12531 >= #12530 #336
[mk-app] #12532 not #12531
[mk-app] #12533 and #12524 #12529 #12532
[mk-app] #12534 not #12533
[mk-app] #12535 vstd!seq.Seq.index.? #120 #2056 #32 #12506
[mk-app] #12536 vstd!seq.Seq.index.? #120 #140 #12535 #12505
[mk-app] #12537 %R #12536
[mk-app] #12538 = #12537 #602
[mk-app] #12539 or #12522 #12534 #12538
[mk-app] #12540 not #12539
[mk-app] #12541 or #12504 #10870
[mk-app] #12542 or #10848 #12540
[mk-app] #12543 and #12541 #12542
[mk-quant] #12544 internal_g1!g.lower.?_definition 2 #10860 #12543
[attach-var-names] #12544 (|n!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #12545 or #10866 #12544
[mk-app] #12546 + #12526 #12525
[inst-discovered] theory-solving 0x0 arith# ; #12527
[mk-app] #12547 = #12527 #12546
[instance] 0x0 #12547
[attach-enode] #12547 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12547 * #365 #12525
[mk-app] #12548 + #12523 #12547
[mk-app] #12549 >= #12548 #336
[mk-app] #12550 <= #12546 #336
[inst-discovered] theory-solving 0x0 arith# ; #12550
[mk-app] #12551 = #12550 #12549
[instance] 0x0 #12551
[attach-enode] #12551 0
[end-of-instance]
[mk-app] #12550 not #12549
[mk-app] #12551 + #12132 #12525
[inst-discovered] theory-solving 0x0 arith# ; #12530
[mk-app] #12552 = #12530 #12551
[instance] 0x0 #12552
[attach-enode] #12552 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12552 + #186 #12547
[mk-app] #12553 <= #12552 #336
[mk-app] #12554 >= #12551 #336
[inst-discovered] theory-solving 0x0 arith# ; #12554
[mk-app] #12555 = #12554 #12553
[instance] 0x0 #12555
[attach-enode] #12555 0
[end-of-instance]
[mk-app] #12551 not #12553
[mk-app] #12554 and #12524 #12550 #12551
[mk-app] #12555 not #12554
[mk-app] #12556 or #12522 #12555 #12538
[mk-app] #12557 not #12556
[mk-app] #12558 or #10848 #12557
[inst-discovered] theory-solving 0x0 basic# ; #12558
[mk-app] #12559 = #12558 #12558
[instance] 0x0 #12559
[attach-enode] #12559 0
[end-of-instance]
[mk-app] #12559 and #12541 #12558
[mk-quant] #12560 internal_g1!g.lower.?_definition 2 #10860 #12559
[attach-var-names] #12560 (|n!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #12546 or #10866 #12560
[mk-app] #12542 not #10923
[mk-app] #12543 i$!skolem_user_g1__g__pchol_0!60 #33 #43
[mk-app] #12544 has_type #12543 #184
[mk-app] #12545 not #12544
[mk-app] #12561 %I #12543
[mk-app] #12562 >= #12561 #336
[mk-app] #12563 + #12561 #12132
[mk-app] #12564 >= #12563 #336
[mk-app] #12565 not #12564
[mk-app] #12566 and #12562 #12565
[mk-app] #12567 not #12566
[mk-app] #12568 vstd!seq.Seq.index.? #120 #2056 #43 #12543
[mk-app] #12569 vstd!seq.Seq.index.? #120 #140 #12568 #12543
[mk-app] #12570 %R #12569
[mk-app] #12571 <= #12570 #602
[mk-app] #12572 not #12571
[mk-app] #12573 or #12545 #12567 #12572
[mk-app] #12574 not #12573
[mk-app] #12575 j$!skolem_user_g1__g__pchol_1!61 #33 #32 #43 #63
[mk-app] #12576 i$!skolem_user_g1__g__pchol_1!62 #33 #32 #43 #63
[mk-app] #12577 has_type #12576 #184
[mk-app] #12578 has_type #12575 #184
[mk-app] #12579 and #12577 #12578
[mk-app] #12580 not #12579
[mk-app] #12581 %I #12576
[mk-app] #12582 >= #12581 #336
[mk-app] #12583 * #365 #12581
[mk-app] #12584 + #186 #12583
[mk-app] #12585 <= #12584 #336
[mk-app] #12586 not #12585
[mk-app] #12587 %I #12575
[mk-app] #12588 + #12587 #12583
[mk-app] #12589 >= #12588 #336
[mk-app] #12590 + #12587 #5268
[mk-app] #12591 >= #12590 #336
[mk-app] #12592 not #12591
[mk-app] #12593 and #12582 #12586 #12589 #12592
[mk-app] #12594 not #12593
[mk-app] #12595 vstd!seq.Seq.index.? #120 #2056 #63 #12576
[mk-app] #12596 vstd!seq.Seq.index.? #120 #140 #12595 #12575
[mk-app] #12597 %R #12596
[mk-app] #12598 Add #12581 #291
[mk-app] #12599 I #12598
[mk-app] #12600 g1!g.cdot.? #43 #12576 #12575 #12599
[mk-app] #12601 = #12597 #12600
[mk-app] #12602 or #12580 #12594 #12601
[mk-app] #12603 not #12602
[mk-app] #12604 or #12574 #12603
[mk-app] #12605 or #12542 #10963
[mk-app] #12606 or #10923 #12604
[mk-app] #12607 and #12605 #12606
[mk-quant] #12608 internal_g1!g.pchol.?_definition 4 #10951 #12607
[attach-var-names] #12608 (|c!| ; |Poly|) (|n!| ; |Poly|) (|l!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #12609 or #10971 #12608
[inst-discovered] theory-solving 0x0 basic# ; #10961
[mk-app] #12610 = #10961 #10961
[instance] 0x0 #12610
[attach-enode] #12610 0
[end-of-instance]
[mk-app] #12610 + #12132 #12561
[inst-discovered] theory-solving 0x0 arith# ; #12563
[mk-app] #12611 = #12563 #12610
[instance] 0x0 #12611
[attach-enode] #12611 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12611 * #365 #12561
[mk-app] #12612 + #186 #12611
[mk-app] #12613 <= #12612 #336
[mk-app] #12614 >= #12610 #336
[inst-discovered] theory-solving 0x0 arith# ; #12614
[mk-app] #12615 = #12614 #12613
[instance] 0x0 #12615
[attach-enode] #12615 0
[end-of-instance]
[mk-app] #12610 not #12613
[mk-app] #12614 and #12562 #12610
[mk-app] #12615 not #12614
[mk-app] #12616 or #12545 #12615 #12572
[inst-discovered] theory-solving 0x0 basic# ; #12616
[mk-app] #12617 = #12616 #12616
[instance] 0x0 #12617
[attach-enode] #12617 0
[end-of-instance]
[mk-app] #12617 not #12616
[mk-app] #12618 + #12583 #12587
[inst-discovered] theory-solving 0x0 arith# ; #12588
[mk-app] #12619 = #12588 #12618
[instance] 0x0 #12619
[attach-enode] #12619 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12619 * #365 #12587
[mk-app] #12620 + #12581 #12619
[mk-app] #12621 <= #12620 #336
[mk-app] #12622 >= #12618 #336
[inst-discovered] theory-solving 0x0 arith# ; #12622
[mk-app] #12623 = #12622 #12621
[instance] 0x0 #12623
[attach-enode] #12623 0
[end-of-instance]
[mk-app] #12622 + #5268 #12587
[inst-discovered] theory-solving 0x0 arith# ; #12590
[mk-app] #12623 = #12590 #12622
[instance] 0x0 #12623
[attach-enode] #12623 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12623 + #676 #12619
[mk-app] #12624 <= #12623 #336
[mk-app] #12625 >= #12622 #336
[inst-discovered] theory-solving 0x0 arith# ; #12625
[mk-app] #12626 = #12625 #12624
[instance] 0x0 #12626
[attach-enode] #12626 0
[end-of-instance]
[mk-app] #12625 not #12624
[mk-app] #12626 and #12582 #12586 #12621 #12625
[mk-app] #12627 not #12626
[mk-app] #12628 or #12580 #12627 #12601
[mk-app] #12629 not #12628
[mk-app] #12630 or #12617 #12629
[mk-app] #12631 or #10923 #12617 #12629
[mk-app] #12632 or #10923 #12630
[inst-discovered] theory-solving 0x0 basic# ; #12632
[mk-app] #12633 = #12632 #12631
[instance] 0x0 #12633
[attach-enode] #12633 0
[end-of-instance]
[mk-app] #12632 and #12605 #12631
[mk-quant] #12633 internal_g1!g.pchol.?_definition 4 #10951 #12632
[attach-var-names] #12633 (|c!| ; |Poly|) (|n!| ; |Poly|) (|l!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #12618 or #10971 #12633
[mk-app] #12606 not #10991
[mk-app] #12607 m$!skolem_user_g1__g__has_chol_0!63 #33 #32
[mk-app] #12608 has_type #12607 #2076
[mk-app] #12609 g1!g.is_chol.? #32 #12607 #33
[mk-app] #12630 and #12608 #12609
[mk-app] #12622 not #10993
[mk-quant] #12634 user_g1__g__has_chol_0 1 #10994 #12622
[attach-var-names] #12634 (|m$| ; |Poly|)
[mk-app] #12635 or #12606 #12630
[mk-app] #12636 or #10991 #12634
[mk-app] #12637 and #12635 #12636
[mk-quant] #12638 internal_g1!g.has_chol.?_definition 2 #10997 #12637
[attach-var-names] #12638 (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #12639 or #11000 #12638
[mk-app] #12640 not #11253
[mk-app] #12641 not #11310
[mk-app] #12642 not #11312
[mk-app] #12643 not #11316
[mk-app] #12644 not #11318
[mk-app] #12645 not #11320
[mk-app] #12646 not #11323
[mk-app] #12647 not #11324
[mk-app] #12648 q$!skolem_user_g1__g__chol_diag_0!64 #33 #8326 #11252 #10417 #10416 #9652 #9651
[mk-app] #12649 has_type #12648 #184
[mk-app] #12650 not #12649
[mk-app] #12651 %I #12648
[mk-app] #12652 >= #12651 #336
[mk-app] #12653 * #365 #11285
[mk-app] #12654 + #12651 #12653
[mk-app] #12655 >= #12654 #336
[mk-app] #12656 not #12655
[mk-app] #12657 and #12652 #12656
[mk-app] #12658 not #12657
[mk-app] #12659 vstd!seq.Seq.index.? #9651 #9652 #10417 #12648
[mk-app] #12660 g1!g.ix.? #11256 #11256 #11255
[mk-app] #12661 = #12651 #12660
[mk-app] #12662 vstd!seq.Seq.index.? #9651 #9652 #10416 #12648
[mk-app] #12663 if #12661 #33 #12662
[mk-app] #12664 = #12659 #12663
[mk-app] #12665 or #12650 #12658 #12664
[mk-app] #12666 not #12665
[mk-app] #12667 and #11288 #12666
[mk-app] #12668 or #12641 #12642 #12643 #12644 #12645 #12646 #12647 #12667
[mk-app] #12669 or #12640 #11335
[mk-app] #12670 or #11253 #12668
[mk-app] #12671 and #12669 #12670
[mk-quant] #12672 internal_req__g1!g.chol_diag._definition 11 #11307 #12671
[attach-var-names] #12672 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|div0!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12673 + #12653 #12651
[inst-discovered] theory-solving 0x0 arith# ; #12654
[mk-app] #12674 = #12654 #12673
[instance] 0x0 #12674
[attach-enode] #12674 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #12674 * #365 #12651
[mk-app] #12675 + #11285 #12674
[mk-app] #12676 <= #12675 #336
[mk-app] #12677 >= #12673 #336
[inst-discovered] theory-solving 0x0 arith# ; #12677
[mk-app] #12678 = #12677 #12676
[instance] 0x0 #12678
[attach-enode] #12678 0
[end-of-instance]
[mk-app] #12673 not #12676
[mk-app] #12677 and #12652 #12673
[mk-app] #12678 not #12677
[mk-app] #12679 or #12650 #12678 #12664
[mk-app] #12680 not #12679
[mk-app] #12681 and #11288 #12680
[mk-app] #12682 or #12641 #12642 #12643 #12644 #12645 #12646 #12647 #12681
[inst-discovered] theory-solving 0x0 basic# ; #12682
[mk-app] #12683 = #12682 #12682
[instance] 0x0 #12683
[attach-enode] #12683 0
[end-of-instance]
[mk-app] #12683 or #11253 #12641 #12642 #12643 #12644 #12645 #12646 #12647 #12681
[mk-app] #12684 or #11253 #12682
[inst-discovered] theory-solving 0x0 basic# ; #12684
[mk-app] #12685 = #12684 #12683
[instance] 0x0 #12685
[attach-enode] #12685 0
[end-of-instance]
[mk-app] #12684 and #12669 #12683
[mk-quant] #12685 internal_req__g1!g.chol_diag._definition 11 #11307 #12684
[attach-var-names] #12685 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|div0!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12670 not #11478
[mk-app] #12671 not #11505
[mk-app] #12672 not #11490
[mk-app] #12682 v$!skolem_user_g1__g__chol_zero_step_0!65 #122 #219 #2455 #63 #5623 #1616 #1615
[mk-app] #12686 has_type #12682 #1616
[mk-app] #12687 not #12686
[mk-app] #12688 g1!g.MatrixDataTypeBase.val.? #1615 #1616 #12682
[mk-app] #12689 %R #12688
[mk-app] #12690 = #12689 #602
[mk-app] #12691 not #12690
[mk-app] #12692 I #11479
[mk-app] #12693 vstd!seq.Seq.update.? #1615 #1616 #63 #12692 #12682
[mk-app] #12694 g1!g.chol_zero.? #1615 #1616 #5623 #12693 #11031 #771 #11178
[mk-app] #12695 or #12687 #12691 #12694
[mk-app] #12696 not #12695
[mk-app] #12697 or #12671 #11507 #12672 #12696
[mk-app] #12698 or #12670 #11514
[mk-app] #12699 or #11478 #12697
[mk-app] #12700 and #12698 #12699
[mk-quant] #12701 internal_ens__g1!g.chol_zero_step._definition 7 #11502 #12700
[attach-var-names] #12701 (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #12697
[mk-app] #12702 = #12697 #12697
[instance] 0x0 #12702
[attach-enode] #12702 0
[end-of-instance]
[mk-app] #12702 or #11478 #12671 #11507 #12672 #12696
[inst-discovered] theory-solving 0x0 basic# ; #12699
[mk-app] #12703 = #12699 #12702
[instance] 0x0 #12703
[attach-enode] #12703 0
[end-of-instance]
[mk-app] #12703 and #12698 #12702
[mk-quant] #12704 internal_ens__g1!g.chol_zero_step._definition 7 #11502 #12703
[attach-var-names] #12704 (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12112 not #67
[mk-app] #12113 or #12112 #2139
[mk-app] #12117 not #12113
[inst-discovered] theory-solving 0x0 basic# ; #69
[mk-app] #12116 = #69 #12117
[instance] 0x0 #12116
[attach-enode] #12116 0
[end-of-instance]
[mk-app] #12116 not #12117
[inst-discovered] theory-solving 0x0 basic# ; #12116
[mk-app] #12118 = #12116 #12113
[instance] 0x0 #12118
[attach-enode] #12118 0
[end-of-instance]
[mk-app] #12116 or #12112 #2139 #71
[mk-app] #12118 or #12113 #71
[inst-discovered] theory-solving 0x0 basic# ; #12118
[mk-app] #12119 = #12118 #12116
[instance] 0x0 #12119
[attach-enode] #12119 0
[end-of-instance]
[mk-quant] #12118 prelude_mut_ref_update_has_type 4 #73 #12116
[attach-var-names] #12118 (|arg| ; |Poly|) (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #12113 not #145
[mk-app] #12117 not #153
[mk-app] #12119 or #12113 #12117
[mk-app] #12120 not #12119
[inst-discovered] theory-solving 0x0 basic# ; #154
[mk-app] #11725 = #154 #12120
[instance] 0x0 #11725
[attach-enode] #11725 0
[end-of-instance]
[mk-quant] #11725 prelude_as_type 2 #150 #12120
[attach-var-names] #11725 (|t| ; |Type|) (|x| ; |Poly|)
[mk-app] #11726 not #347
[mk-app] #11727 not #346
[mk-app] #11728 or #11726 #11727
[mk-app] #11729 not #11728
[inst-discovered] theory-solving 0x0 basic# ; #349
[mk-app] #11730 = #349 #11729
[instance] 0x0 #11730
[attach-enode] #11730 0
[end-of-instance]
[mk-quant] #11730 prelude_nat_clip 1 #343 #11729
[attach-var-names] #11730 (|i| ; |Int|)
[mk-app] #11734 or #345 #372
[mk-app] #11735 not #11734
[inst-discovered] theory-solving 0x0 basic# ; #375
[mk-app] #11736 = #375 #11735
[instance] 0x0 #11736
[attach-enode] #11736 0
[end-of-instance]
[mk-app] #11736 not #11735
[inst-discovered] theory-solving 0x0 basic# ; #11736
[mk-app] #12697 = #11736 #11734
[instance] 0x0 #12697
[attach-enode] #12697 0
[end-of-instance]
[mk-app] #11736 or #345 #372 #357
[mk-app] #12697 or #11734 #357
[inst-discovered] theory-solving 0x0 basic# ; #12697
[mk-app] #12426 = #12697 #11736
[instance] 0x0 #12426
[attach-enode] #12426 0
[end-of-instance]
[mk-app] #12697 not #364
[mk-app] #12426 not #11736
[mk-app] #12427 or #12697 #366 #12426
[mk-app] #12428 not #12427
[mk-app] #12429 and #364 #367 #11736
[inst-discovered] theory-solving 0x0 basic# ; #12429
[mk-app] #12430 = #12429 #12428
[instance] 0x0 #12430
[attach-enode] #12430 0
[end-of-instance]
[mk-quant] #12429 prelude_u_clip 2 #360 #12428
[attach-var-names] #12429 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #11734 not #398
[mk-app] #11735 or #11734 #403
[mk-app] #12430 not #11735
[inst-discovered] theory-solving 0x0 basic# ; #406
[mk-app] #12431 = #406 #12430
[instance] 0x0 #12431
[attach-enode] #12431 0
[end-of-instance]
[mk-app] #12431 not #12430
[inst-discovered] theory-solving 0x0 basic# ; #12431
[mk-app] #12435 = #12431 #11735
[instance] 0x0 #12435
[attach-enode] #12435 0
[end-of-instance]
[mk-app] #12431 or #11734 #403 #384
[mk-app] #12435 or #11735 #384
[inst-discovered] theory-solving 0x0 basic# ; #12435
[mk-app] #12436 = #12435 #12431
[instance] 0x0 #12436
[attach-enode] #12436 0
[end-of-instance]
[mk-app] #12435 not #391
[mk-app] #12436 not #12431
[mk-app] #12437 or #12435 #394 #12436
[mk-app] #12438 not #12437
[mk-app] #12439 and #391 #397 #12431
[inst-discovered] theory-solving 0x0 basic# ; #12439
[mk-app] #12236 = #12439 #12438
[instance] 0x0 #12236
[attach-enode] #12236 0
[end-of-instance]
[mk-quant] #12439 prelude_i_clip 2 #387 #12438
[attach-var-names] #12439 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #11735 not #430
[mk-app] #12430 not #393
[mk-app] #12236 or #11735 #12430
[mk-app] #12237 not #12236
[inst-discovered] theory-solving 0x0 basic# ; #429
[mk-app] #12238 = #429 #12237
[instance] 0x0 #12238
[attach-enode] #12238 0
[end-of-instance]
[mk-app] #12238 not #433
[mk-app] #12241 not #415
[mk-app] #12242 or #12238 #12241
[mk-app] #12246 not #12242
[inst-discovered] theory-solving 0x0 basic# ; #431
[mk-app] #12247 = #431 #12246
[instance] 0x0 #12247
[attach-enode] #12247 0
[end-of-instance]
[mk-app] #12247 or #12237 #12246
[mk-app] #12653 not #418
[mk-app] #12654 or #345 #12653
[mk-app] #12655 not #12654
[inst-discovered] theory-solving 0x0 basic# ; #434
[mk-app] #12656 = #434 #12655
[instance] 0x0 #12656
[attach-enode] #12656 0
[end-of-instance]
[mk-app] #12656 not #437
[mk-app] #12657 not #421
[mk-app] #12658 or #12656 #12657
[mk-app] #12665 not #12658
[inst-discovered] theory-solving 0x0 basic# ; #435
[mk-app] #12666 = #435 #12665
[instance] 0x0 #12666
[attach-enode] #12666 0
[end-of-instance]
[mk-app] #12666 or #12655 #12665
[mk-app] #12667 not #12666
[mk-app] #12668 or #12667 #424
[mk-app] #12394 not #12247
[mk-app] #12395 not #12668
[mk-app] #12396 or #12394 #12395
[mk-app] #12397 not #12396
[mk-app] #12398 and #12247 #12668
[inst-discovered] theory-solving 0x0 basic# ; #12398
[mk-app] #12401 = #12398 #12397
[instance] 0x0 #12401
[attach-enode] #12401 0
[end-of-instance]
[mk-quant] #12398 prelude_char_clip 1 #427 #12397
[attach-var-names] #12398 (|i| ; |Int|)
[mk-app] #12401 or #345 #372
[mk-app] #12402 not #12401
[inst-discovered] theory-solving 0x0 basic# ; #375
[mk-app] #12403 = #375 #12402
[instance] 0x0 #12403
[attach-enode] #12403 0
[end-of-instance]
[mk-app] #12403 = #12401 #442
[mk-app] #12366 not #12403
[mk-app] #12367 = #442 #12402
[inst-discovered] theory-solving 0x0 basic# ; #12367
[mk-app] #12368 = #12367 #12366
[instance] 0x0 #12368
[attach-enode] #12368 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12366
[mk-app] #12367 = #12366 #12366
[instance] 0x0 #12367
[attach-enode] #12367 0
[end-of-instance]
[mk-quant] #12367 prelude_u_inv 2 #444 #12366
[attach-var-names] #12367 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #12402 or #11734 #403
[mk-app] #12368 not #12402
[inst-discovered] theory-solving 0x0 basic# ; #406
[mk-app] #12369 = #406 #12368
[instance] 0x0 #12369
[attach-enode] #12369 0
[end-of-instance]
[mk-app] #12369 = #12402 #446
[mk-app] #12370 not #12369
[mk-app] #12373 = #446 #12368
[inst-discovered] theory-solving 0x0 basic# ; #12373
[mk-app] #12374 = #12373 #12370
[instance] 0x0 #12374
[attach-enode] #12374 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12370
[mk-app] #12373 = #12370 #12370
[instance] 0x0 #12373
[attach-enode] #12373 0
[end-of-instance]
[mk-quant] #12373 prelude_i_inv 2 #450 #12370
[attach-var-names] #12373 (|i| ; |Int|) (|bits| ; |Int|)
[inst-discovered] theory-solving 0x0 basic# ; #434
[mk-app] #12368 = #434 #12655
[instance] 0x0 #12368
[attach-enode] #12368 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #435
[mk-app] #12368 = #435 #12665
[instance] 0x0 #12368
[attach-enode] #12368 0
[end-of-instance]
[mk-app] #12368 = #452 #12666
[mk-quant] #12374 prelude_char_inv 1 #456 #12368
[attach-var-names] #12374 (|i| ; |Int|)
[inst-discovered] theory-solving 0x0 basic# ; #526
[mk-app] #12375 = #526 #526
[instance] 0x0 #12375
[attach-enode] #12375 0
[end-of-instance]
[mk-app] #12375 not #637
[mk-app] #10679 or #12375 #345
[mk-app] #9872 not #10679
[inst-discovered] theory-solving 0x0 basic# ; #638
[mk-app] #6410 = #638 #9872
[instance] 0x0 #6410
[attach-enode] #6410 0
[end-of-instance]
[mk-app] #6410 not #9872
[inst-discovered] theory-solving 0x0 basic# ; #6410
[mk-app] #12132 = #6410 #10679
[instance] 0x0 #12132
[attach-enode] #12132 0
[end-of-instance]
[mk-app] #9872 or #12375 #345 #640
[mk-app] #6410 or #10679 #640
[inst-discovered] theory-solving 0x0 basic# ; #6410
[mk-app] #12132 = #6410 #9872
[instance] 0x0 #12132
[attach-enode] #12132 0
[end-of-instance]
[mk-quant] #10679 prelude_mul_nats 2 #568 #9872
[attach-var-names] #10679 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #6410 or #12375 #650
[mk-app] #12132 not #6410
[inst-discovered] theory-solving 0x0 basic# ; #652
[mk-app] #12133 = #652 #12132
[instance] 0x0 #12133
[attach-enode] #12133 0
[end-of-instance]
[mk-app] #12133 not #12132
[inst-discovered] theory-solving 0x0 basic# ; #12133
[mk-app] #12134 = #12133 #6410
[instance] 0x0 #12134
[attach-enode] #12134 0
[end-of-instance]
[mk-app] #12132 not #654
[mk-app] #12133 not #653
[mk-app] #12134 or #12132 #12133
[mk-app] #12135 not #12134
[inst-discovered] theory-solving 0x0 basic# ; #657
[mk-app] #12136 = #657 #12135
[instance] 0x0 #12136
[attach-enode] #12136 0
[end-of-instance]
[mk-app] #12136 or #12375 #650 #12135
[mk-app] #12137 or #6410 #12135
[inst-discovered] theory-solving 0x0 basic# ; #12137
[mk-app] #12138 = #12137 #12136
[instance] 0x0 #12138
[attach-enode] #12138 0
[end-of-instance]
[mk-quant] #12137 prelude_div_unsigned_in_bounds 2 #578 #12136
[attach-var-names] #12137 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #6410 or #12375 #650
[mk-app] #12138 not #6410
[inst-discovered] theory-solving 0x0 basic# ; #652
[mk-app] #12139 = #652 #12138
[instance] 0x0 #12139
[attach-enode] #12139 0
[end-of-instance]
[mk-app] #12139 not #12138
[inst-discovered] theory-solving 0x0 basic# ; #12139
[mk-app] #12140 = #12139 #6410
[instance] 0x0 #12140
[attach-enode] #12140 0
[end-of-instance]
[mk-app] #12138 not #667
[mk-app] #12139 or #12138 #671
[mk-app] #12140 not #12139
[inst-discovered] theory-solving 0x0 basic# ; #673
[mk-app] #12144 = #673 #12140
[instance] 0x0 #12144
[attach-enode] #12144 0
[end-of-instance]
[mk-app] #12144 or #12375 #650 #12140
[mk-app] #12145 or #6410 #12140
[inst-discovered] theory-solving 0x0 basic# ; #12145
[mk-app] #12146 = #12145 #12144
[instance] 0x0 #12146
[attach-enode] #12146 0
[end-of-instance]
[mk-quant] #12145 prelude_mod_unsigned_in_bounds 2 #587 #12144
[attach-var-names] #12145 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #6410 not #668
[mk-app] #12146 not #677
[mk-app] #12337 or #6410 #12146
[mk-app] #12338 not #12337
[inst-discovered] theory-solving 0x0 basic# ; #678
[mk-app] #12339 = #678 #12338
[instance] 0x0 #12339
[attach-enode] #12339 0
[end-of-instance]
[mk-app] #12339 not #12338
[inst-discovered] theory-solving 0x0 basic# ; #12339
[mk-app] #12340 = #12339 #12337
[instance] 0x0 #12340
[attach-enode] #12340 0
[end-of-instance]
[mk-app] #12339 or #6410 #12146 #680
[mk-app] #12340 or #12337 #680
[inst-discovered] theory-solving 0x0 basic# ; #12340
[mk-app] #12341 = #12340 #12339
[instance] 0x0 #12341
[attach-enode] #12341 0
[end-of-instance]
[mk-quant] #12340 prelude_bit_xor_u_inv 3 #683 #12339
[attach-var-names] #12340 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #12337 not #688
[mk-app] #12338 not #689
[mk-app] #12341 or #12337 #12338
[mk-app] #12344 not #12341
[inst-discovered] theory-solving 0x0 basic# ; #690
[mk-app] #12345 = #690 #12344
[instance] 0x0 #12345
[attach-enode] #12345 0
[end-of-instance]
[mk-app] #12345 not #12344
[inst-discovered] theory-solving 0x0 basic# ; #12345
[mk-app] #12346 = #12345 #12341
[instance] 0x0 #12346
[attach-enode] #12346 0
[end-of-instance]
[mk-app] #12345 or #12337 #12338 #691
[mk-app] #12346 or #12341 #691
[inst-discovered] theory-solving 0x0 basic# ; #12346
[mk-app] #11662 = #12346 #12345
[instance] 0x0 #11662
[attach-enode] #11662 0
[end-of-instance]
[mk-quant] #12346 prelude_bit_xor_i_inv 3 #694 #12345
[attach-var-names] #12346 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #12341 or #6410 #12146
[mk-app] #12344 not #12341
[inst-discovered] theory-solving 0x0 basic# ; #678
[mk-app] #11662 = #678 #12344
[instance] 0x0 #11662
[attach-enode] #11662 0
[end-of-instance]
[mk-app] #11662 not #12344
[inst-discovered] theory-solving 0x0 basic# ; #11662
[mk-app] #11663 = #11662 #12341
[instance] 0x0 #11663
[attach-enode] #11663 0
[end-of-instance]
[mk-app] #11662 or #6410 #12146 #700
[mk-app] #11663 or #12341 #700
[inst-discovered] theory-solving 0x0 basic# ; #11663
[mk-app] #11664 = #11663 #11662
[instance] 0x0 #11664
[attach-enode] #11664 0
[end-of-instance]
[mk-quant] #11663 prelude_bit_or_u_inv 3 #703 #11662
[attach-var-names] #11663 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #12341 or #12337 #12338
[mk-app] #12344 not #12341
[inst-discovered] theory-solving 0x0 basic# ; #690
[mk-app] #11664 = #690 #12344
[instance] 0x0 #11664
[attach-enode] #11664 0
[end-of-instance]
[mk-app] #11664 not #12344
[inst-discovered] theory-solving 0x0 basic# ; #11664
[mk-app] #11665 = #11664 #12341
[instance] 0x0 #11665
[attach-enode] #11665 0
[end-of-instance]
[mk-app] #11664 or #12337 #12338 #707
[mk-app] #11665 or #12341 #707
[inst-discovered] theory-solving 0x0 basic# ; #11665
[mk-app] #11666 = #11665 #11664
[instance] 0x0 #11666
[attach-enode] #11666 0
[end-of-instance]
[mk-quant] #11665 prelude_bit_or_i_inv 3 #710 #11664
[attach-var-names] #11665 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #12341 or #6410 #12146
[mk-app] #12344 not #12341
[inst-discovered] theory-solving 0x0 basic# ; #678
[mk-app] #11666 = #678 #12344
[instance] 0x0 #11666
[attach-enode] #11666 0
[end-of-instance]
[mk-app] #11666 not #12344
[inst-discovered] theory-solving 0x0 basic# ; #11666
[mk-app] #11670 = #11666 #12341
[instance] 0x0 #11670
[attach-enode] #11670 0
[end-of-instance]
[mk-app] #11666 or #6410 #12146 #715
[mk-app] #11670 or #12341 #715
[inst-discovered] theory-solving 0x0 basic# ; #11670
[mk-app] #11671 = #11670 #11666
[instance] 0x0 #11671
[attach-enode] #11671 0
[end-of-instance]
[mk-quant] #11670 prelude_bit_and_u_inv 3 #718 #11666
[attach-var-names] #11670 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #12341 or #12337 #12338
[mk-app] #12344 not #12341
[inst-discovered] theory-solving 0x0 basic# ; #690
[mk-app] #11671 = #690 #12344
[instance] 0x0 #11671
[attach-enode] #11671 0
[end-of-instance]
[mk-app] #11671 not #12344
[inst-discovered] theory-solving 0x0 basic# ; #11671
[mk-app] #11672 = #11671 #12341
[instance] 0x0 #11672
[attach-enode] #11672 0
[end-of-instance]
[mk-app] #11671 or #12337 #12338 #722
[mk-app] #11672 or #12341 #722
[inst-discovered] theory-solving 0x0 basic# ; #11672
[mk-app] #12053 = #11672 #11671
[instance] 0x0 #12053
[attach-enode] #12053 0
[end-of-instance]
[mk-quant] #11672 prelude_bit_and_i_inv 3 #725 #11671
[attach-var-names] #11672 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #12341 not #738
[mk-app] #12344 or #6410 #12341
[mk-app] #12053 not #12344
[inst-discovered] theory-solving 0x0 basic# ; #737
[mk-app] #12054 = #737 #12053
[instance] 0x0 #12054
[attach-enode] #12054 0
[end-of-instance]
[mk-app] #12054 not #12053
[inst-discovered] theory-solving 0x0 basic# ; #12054
[mk-app] #12057 = #12054 #12344
[instance] 0x0 #12057
[attach-enode] #12057 0
[end-of-instance]
[mk-app] #12053 or #6410 #12341 #732
[mk-app] #12054 or #12344 #732
[inst-discovered] theory-solving 0x0 basic# ; #12054
[mk-app] #12057 = #12054 #12053
[instance] 0x0 #12057
[attach-enode] #12057 0
[end-of-instance]
[mk-quant] #12344 prelude_bit_shr_u_inv 3 #735 #12053
[attach-var-names] #12344 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #12054 or #12337 #12341
[mk-app] #12057 not #12054
[inst-discovered] theory-solving 0x0 basic# ; #748
[mk-app] #12058 = #748 #12057
[instance] 0x0 #12058
[attach-enode] #12058 0
[end-of-instance]
[mk-app] #12058 not #12057
[inst-discovered] theory-solving 0x0 basic# ; #12058
[mk-app] #12059 = #12058 #12054
[instance] 0x0 #12059
[attach-enode] #12059 0
[end-of-instance]
[mk-app] #12057 or #12337 #12341 #743
[mk-app] #12058 or #12054 #743
[inst-discovered] theory-solving 0x0 basic# ; #12058
[mk-app] #12059 = #12058 #12057
[instance] 0x0 #12059
[attach-enode] #12059 0
[end-of-instance]
[mk-quant] #12054 prelude_bit_shr_i_inv 3 #746 #12057
[attach-var-names] #12054 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #12058 not #765
[mk-app] #12059 not #128
[mk-app] #12060 or #12058 #12059
[mk-app] #12065 not #12060
[inst-discovered] theory-solving 0x0 basic# ; #766
[mk-app] #12066 = #766 #12065
[instance] 0x0 #12066
[attach-enode] #12066 0
[end-of-instance]
[mk-app] #12066 or #764 #12065
[inst-discovered] theory-solving 0x0 basic# ; #12066
[mk-app] #12070 = #12066 #12066
[instance] 0x0 #12070
[attach-enode] #12070 0
[end-of-instance]
[mk-app] #12070 = #761 #12066
[mk-quant] #12071 prelude_check_decrease_height 3 #769 #12070
[attach-var-names] #12071 (|otherwise| ; |Bool|) (|prev| ; |Poly|) (|cur| ; |Poly|)
[mk-app] #12072 or #12375 #783
[mk-app] #12492 not #12072
[inst-discovered] theory-solving 0x0 basic# ; #785
[mk-app] #12493 = #785 #12492
[instance] 0x0 #12493
[attach-enode] #12493 0
[end-of-instance]
[mk-app] #12493 = #12072 #774
[mk-app] #12494 not #12493
[mk-app] #12495 = #774 #12492
[inst-discovered] theory-solving 0x0 basic# ; #12495
[mk-app] #12496 = #12495 #12494
[instance] 0x0 #12496
[attach-enode] #12496 0
[end-of-instance]
[mk-app] #12492 not #12072
[inst-discovered] theory-solving 0x0 basic# ; #12494
[mk-app] #12492 = #12494 #12494
[instance] 0x0 #12492
[attach-enode] #12492 0
[end-of-instance]
[mk-quant] #12492 prelude_check_decrease_int_height 2 #778 #12494
[attach-var-names] #12492 (|prev| ; |Int|) (|cur| ; |Int|)
[mk-app] #12495 not #789
[mk-app] #12496 or #12495 #790
[mk-app] #12500 not #12496
[inst-discovered] theory-solving 0x0 basic# ; #792
[mk-app] #12501 = #792 #12500
[instance] 0x0 #12501
[attach-enode] #12501 0
[end-of-instance]
[mk-app] #12501 = #12496 #788
[mk-app] #12502 not #12501
[mk-app] #11693 = #788 #12500
[inst-discovered] theory-solving 0x0 basic# ; #11693
[mk-app] #11694 = #11693 #12502
[instance] 0x0 #11694
[attach-enode] #11694 0
[end-of-instance]
[mk-app] #12500 not #12496
[inst-discovered] theory-solving 0x0 basic# ; #12502
[mk-app] #12500 = #12502 #12502
[instance] 0x0 #12500
[attach-enode] #12500 0
[end-of-instance]
[mk-quant] #12500 prelude_height_lt 2 #794 #12502
[attach-var-names] #12500 (|y| ; |Height|) (|x| ; |Height|)
[mk-app] #11693 not #1369
[mk-app] #11694 not #1370
[mk-app] #11695 not #1371
[mk-app] #11696 not #1372
[mk-app] #11697 not #1373
[mk-app] #11701 not #1374
[mk-app] #11702 or #11693 #11694 #11695 #11696 #11697 #11701
[mk-app] #11703 not #11702
[inst-discovered] theory-solving 0x0 basic# ; #1375
[mk-app] #12563 = #1375 #11703
[instance] 0x0 #12563
[attach-enode] #12563 0
[end-of-instance]
[mk-app] #12563 or #1377 #11703
[mk-app] #12564 not #1380
[mk-app] #12565 not #1381
[mk-app] #12566 or #12564 #12565
[mk-app] #12567 not #12566
[inst-discovered] theory-solving 0x0 basic# ; #1382
[mk-app] #12573 = #1382 #12567
[instance] 0x0 #12573
[attach-enode] #12573 0
[end-of-instance]
[mk-app] #12573 or #1384 #12567
[mk-app] #12574 not #1387
[mk-app] #12588 not #1388
[mk-app] #12589 not #1389
[mk-app] #12590 not #1390
[mk-app] #12591 not #1391
[mk-app] #12592 not #1392
[mk-app] #12593 not #1393
[mk-app] #12594 not #1394
[mk-app] #12602 not #1395
[mk-app] #12603 not #1396
[mk-app] #12604 not #1397
[mk-app] #10212 not #1398
[mk-app] #12169 not #1399
[mk-app] #12170 not #1400
[mk-app] #12171 not #1401
[mk-app] #12172 not #1402
[mk-app] #12173 not #1403
[mk-app] #12179 not #1404
[mk-app] #12180 not #1405
[mk-app] #12181 not #1406
[mk-app] #11757 not #1407
[mk-app] #11758 not #1408
[mk-app] #11759 not #1409
[mk-app] #11760 not #1410
[mk-app] #11761 not #1411
[mk-app] #11766 or #12574 #12588 #12589 #12590 #12591 #12592 #12593 #12594 #12602 #12603 #12604 #10212 #12169 #12170 #12171 #12172 #12173 #12179 #12180 #12181 #11757 #11758 #11759 #11760 #11761
[mk-app] #11767 not #11766
[inst-discovered] theory-solving 0x0 basic# ; #1412
[mk-app] #10242 = #1412 #11767
[instance] 0x0 #10242
[attach-enode] #10242 0
[end-of-instance]
[mk-app] #10242 or #1414 #11767
[inst-discovered] theory-solving 0x0 basic# ; #1420
[mk-app] #12526 = #1420 #1420
[instance] 0x0 #12526
[attach-enode] #12526 0
[end-of-instance]
[mk-app] #12526 not #1422
[mk-app] #12527 not #1423
[mk-app] #12528 or #12526 #12527
[mk-app] #12529 not #12528
[inst-discovered] theory-solving 0x0 basic# ; #1424
[mk-app] #12530 = #1424 #12529
[instance] 0x0 #12530
[attach-enode] #12530 0
[end-of-instance]
[mk-app] #12530 or #1426 #12529
[mk-app] #12531 not #1429
[mk-app] #12532 not #1430
[mk-app] #12533 not #1431
[mk-app] #12534 not #1432
[mk-app] #12539 not #1433
[mk-app] #12540 not #1434
[mk-app] #12201 not #1435
[mk-app] #12202 not #1436
[mk-app] #12203 not #1437
[mk-app] #12204 not #1438
[mk-app] #12205 not #1439
[mk-app] #12211 not #1440
[mk-app] #12212 not #1441
[mk-app] #12213 not #1442
[mk-app] #12307 not #1443
[mk-app] #12308 not #1444
[mk-app] #12309 or #12531 #12532 #12533 #12534 #12539 #12540 #12201 #12202 #12203 #12204 #12205 #12211 #12212 #12213 #12307 #12308
[mk-app] #12310 not #12309
[inst-discovered] theory-solving 0x0 basic# ; #1445
[mk-app] #12311 = #1445 #12310
[instance] 0x0 #12311
[attach-enode] #12311 0
[end-of-instance]
[mk-app] #12311 or #1447 #12310
[inst-discovered] theory-solving 0x0 basic# ; #1453
[mk-app] #12312 = #1453 #1453
[instance] 0x0 #12312
[attach-enode] #12312 0
[end-of-instance]
[mk-app] #12312 not #1455
[mk-app] #12315 not #1456
[mk-app] #12316 not #1457
[mk-app] #12317 not #1458
[mk-app] #12042 not #1459
[mk-app] #12468 not #1460
[mk-app] #1586 not #1461
[mk-app] #1587 or #12312 #12315 #12316 #12317 #12042 #12468 #1586
[mk-app] #1588 not #1587
[inst-discovered] theory-solving 0x0 basic# ; #1462
[mk-app] #1637 = #1462 #1588
[instance] 0x0 #1637
[attach-enode] #1637 0
[end-of-instance]
[mk-app] #1637 or #1464 #1588
[inst-discovered] theory-solving 0x0 basic# ; #1470
[mk-app] #1638 = #1470 #1470
[instance] 0x0 #1638
[attach-enode] #1638 0
[end-of-instance]
[mk-app] #1638 not #1472
[mk-app] #12292 not #1473
[mk-app] #11635 not #1474
[mk-app] #11638 not #1475
[mk-app] #11639 not #1476
[mk-app] #11640 not #1477
[mk-app] #11641 not #1478
[mk-app] #11644 not #1479
[mk-app] #2684 not #1480
[mk-app] #2685 not #1481
[mk-app] #2686 not #1482
[mk-app] #11515 not #1483
[mk-app] #11516 or #1638 #12292 #11635 #11638 #11639 #11640 #11641 #11644 #2684 #2685 #2686 #11515
[mk-app] #11336 not #11516
[inst-discovered] theory-solving 0x0 basic# ; #1484
[mk-app] #11337 = #1484 #11336
[instance] 0x0 #11337
[attach-enode] #11337 0
[end-of-instance]
[mk-app] #11337 or #1486 #11336
[mk-app] #11001 not #1489
[mk-app] #10964 not #1490
[mk-app] #10954 not #1491
[mk-app] #10972 not #1492
[mk-app] #10863 or #11001 #10964 #10954 #10972
[mk-app] #10864 not #10863
[inst-discovered] theory-solving 0x0 basic# ; #1493
[mk-app] #10867 = #1493 #10864
[instance] 0x0 #10867
[attach-enode] #10867 0
[end-of-instance]
[mk-app] #10867 or #1495 #10864
[inst-discovered] theory-solving 0x0 basic# ; #1501
[mk-app] #10838 = #1501 #1501
[instance] 0x0 #10838
[attach-enode] #10838 0
[end-of-instance]
[mk-app] #10838 not #1595
[mk-app] #10843 not #1596
[mk-app] #10845 or #10838 #10843
[mk-app] #10680 not #10845
[inst-discovered] theory-solving 0x0 basic# ; #1597
[mk-app] #10681 = #1597 #10680
[instance] 0x0 #10681
[attach-enode] #10681 0
[end-of-instance]
[mk-app] #10681 not #10680
[inst-discovered] theory-solving 0x0 basic# ; #10681
[mk-app] #10682 = #10681 #10845
[instance] 0x0 #10682
[attach-enode] #10682 0
[end-of-instance]
[mk-app] #10681 or #10838 #10843 #1599
[mk-app] #10682 or #10845 #1599
[inst-discovered] theory-solving 0x0 basic# ; #10682
[mk-app] #10570 = #10682 #10681
[instance] 0x0 #10570
[attach-enode] #10570 0
[end-of-instance]
[mk-quant] #10682 internal_crate__fun__1_apply_definition 6 #1601 #10681
[attach-var-names] #10682 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #10845 or #10838 #10843
[mk-app] #10680 not #10845
[inst-discovered] theory-solving 0x0 basic# ; #1597
[mk-app] #10570 = #1597 #10680
[instance] 0x0 #10570
[attach-enode] #10570 0
[end-of-instance]
[mk-app] #10570 not #10680
[inst-discovered] theory-solving 0x0 basic# ; #10570
[mk-app] #10571 = #10570 #10845
[instance] 0x0 #10571
[attach-enode] #10571 0
[end-of-instance]
[mk-app] #10570 or #10838 #10843 #1609
[mk-app] #10571 or #10845 #1609
[inst-discovered] theory-solving 0x0 basic# ; #10571
[mk-app] #10573 = #10571 #10570
[instance] 0x0 #10573
[attach-enode] #10573 0
[end-of-instance]
[mk-quant] #10571 internal_crate__fun__1_height_apply_definition 6 #1611 #10570
[attach-var-names] #10571 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #11636
[mk-app] #10845 = #11636 #11636
[instance] 0x0 #10845
[attach-enode] #10845 0
[end-of-instance]
[mk-app] #10845 not #2169
[mk-app] #10680 not #2170
[mk-app] #10573 not #2179
[mk-app] #10368 not #2180
[mk-app] #10370 or #10845 #10680 #10573 #10368
[mk-app] #10328 not #10370
[inst-discovered] theory-solving 0x0 basic# ; #2181
[mk-app] #10336 = #2181 #10328
[instance] 0x0 #10336
[attach-enode] #10336 0
[end-of-instance]
[mk-app] #10336 not #10328
[inst-discovered] theory-solving 0x0 basic# ; #10336
[mk-app] #10297 = #10336 #10370
[instance] 0x0 #10297
[attach-enode] #10297 0
[end-of-instance]
[mk-app] #10328 or #10845 #10680 #10573 #10368 #2175
[mk-app] #10336 or #10370 #2175
[inst-discovered] theory-solving 0x0 basic# ; #10336
[mk-app] #10297 = #10336 #10328
[instance] 0x0 #10297
[attach-enode] #10297 0
[end-of-instance]
[mk-quant] #10370 internal_core!option.Option./None_ext_equal_definition 5 #2177 #10328
[attach-var-names] #10370 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #10336 not #2193
[mk-app] #10297 not #2194
[mk-app] #10306 not #2189
[mk-app] #10268 or #10845 #10680 #10336 #10297 #10306
[mk-app] #10277 not #10268
[inst-discovered] theory-solving 0x0 basic# ; #2195
[mk-app] #10243 = #2195 #10277
[instance] 0x0 #10243
[attach-enode] #10243 0
[end-of-instance]
[mk-app] #10243 not #10277
[inst-discovered] theory-solving 0x0 basic# ; #10243
[mk-app] #10244 = #10243 #10268
[instance] 0x0 #10244
[attach-enode] #10244 0
[end-of-instance]
[mk-app] #10277 or #10845 #10680 #10336 #10297 #10306 #2175
[mk-app] #10243 or #10268 #2175
[inst-discovered] theory-solving 0x0 basic# ; #10243
[mk-app] #10244 = #10243 #10277
[instance] 0x0 #10244
[attach-enode] #10244 0
[end-of-instance]
[mk-quant] #10268 internal_core!option.Option./Some_ext_equal_definition 5 #2177 #10277
[attach-var-names] #10268 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #10243 not #2217
[mk-app] #10244 not #2221
[mk-app] #10245 or #10243 #10843 #10244
[mk-app] #10213 not #10245
[inst-discovered] theory-solving 0x0 basic# ; #2222
[mk-app] #10214 = #2222 #10213
[instance] 0x0 #10214
[attach-enode] #10214 0
[end-of-instance]
[mk-app] #10214 not #10213
[inst-discovered] theory-solving 0x0 basic# ; #10214
[mk-app] #10184 = #10214 #10245
[instance] 0x0 #10184
[attach-enode] #10184 0
[end-of-instance]
[mk-app] #10214 or #10243 #10843 #10244 #2226
[mk-app] #10184 or #10245 #2226
[inst-discovered] theory-solving 0x0 basic# ; #10184
[mk-app] #10185 = #10184 #10214
[instance] 0x0 #10185
[attach-enode] #10185 0
[end-of-instance]
[mk-quant] #10184 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper_constructor_definition 6 #2228 #10214
[attach-var-names] #10184 (|_history!| ; |Poly|) (|_iter!| ; |Poly|) (|_snapshot!| ; |Poly|) (|_index!| ; |Int|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10245 not #2314
[mk-app] #10213 not #2315
[mk-app] #10185 or #10245 #10213
[mk-app] #10072 not #10185
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #10081 = #2316 #10072
[instance] 0x0 #10081
[attach-enode] #10081 0
[end-of-instance]
[mk-app] #10081 not #10072
[inst-discovered] theory-solving 0x0 basic# ; #10081
[mk-app] #10017 = #10081 #10185
[instance] 0x0 #10017
[attach-enode] #10017 0
[end-of-instance]
[mk-app] #10081 or #10245 #10213 #2320
[mk-app] #10017 or #10185 #2320
[inst-discovered] theory-solving 0x0 basic# ; #10017
[mk-app] #10026 = #10017 #10081
[instance] 0x0 #10026
[attach-enode] #10026 0
[end-of-instance]
[mk-quant] #10017 internal_core!ops.range.Range./Range_constructor_definition 4 #2322 #10081
[attach-var-names] #10017 (|_end!| ; |Poly|) (|_start!| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #10185 not #2382
[mk-app] #10072 not #2383
[mk-app] #10026 or #10185 #10072
[mk-app] #9939 not #10026
[inst-discovered] theory-solving 0x0 basic# ; #2384
[mk-app] #9948 = #2384 #9939
[instance] 0x0 #9948
[attach-enode] #9948 0
[end-of-instance]
[mk-app] #9948 not #9939
[inst-discovered] theory-solving 0x0 basic# ; #9948
[mk-app] #9950 = #9948 #10026
[instance] 0x0 #9950
[attach-enode] #9950 0
[end-of-instance]
[mk-app] #9948 or #10185 #10072 #2388
[mk-app] #9950 or #10026 #2388
[inst-discovered] theory-solving 0x0 basic# ; #9950
[mk-app] #9873 = #9950 #9948
[instance] 0x0 #9873
[attach-enode] #9873 0
[end-of-instance]
[mk-quant] #9950 internal_vstd!std_specs.range.RangeInclusiveView./RangeInclusiveView_constructor_definition 5 #2390 #9948
[attach-var-names] #9950 (|_exhausted!| ; |Bool|) (|_end!| ; |Poly|) (|_start!| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #10026 not #2457
[mk-app] #9939 not #2459
[mk-app] #9873 or #10026 #9939
[mk-app] #9874 not #9873
[inst-discovered] theory-solving 0x0 basic# ; #2460
[mk-app] #9728 = #2460 #9874
[instance] 0x0 #9728
[attach-enode] #9728 0
[end-of-instance]
[mk-app] #9728 not #9874
[inst-discovered] theory-solving 0x0 basic# ; #9728
[mk-app] #9725 = #9728 #9873
[instance] 0x0 #9725
[attach-enode] #9725 0
[end-of-instance]
[mk-app] #9728 or #10026 #9939 #2464
[mk-app] #9725 or #9873 #2464
[inst-discovered] theory-solving 0x0 basic# ; #9725
[mk-app] #9156 = #9725 #9728
[instance] 0x0 #9156
[attach-enode] #9156 0
[end-of-instance]
[mk-quant] #9725 internal_vstd!raw_ptr.PtrData./PtrData_constructor_definition 5 #2466 #9728
[attach-var-names] #9725 (|_metadata!| ; |Poly|) (|_provenance!| ; |vstd!raw_ptr.Provenance.|) (|_addr!| ; |Int|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9873 not #2566
[mk-app] #9874 not #2567
[mk-app] #9156 not #2570
[mk-app] #9157 or #9873 #9874 #9156
[mk-app] #9167 not #9157
[inst-discovered] theory-solving 0x0 basic# ; #2571
[mk-app] #6412 = #2571 #9167
[instance] 0x0 #6412
[attach-enode] #6412 0
[end-of-instance]
[mk-app] #6412 not #9167
[inst-discovered] theory-solving 0x0 basic# ; #6412
[mk-app] #6413 = #6412 #9157
[instance] 0x0 #6413
[attach-enode] #6413 0
[end-of-instance]
[mk-app] #6412 or #9873 #9874 #9156 #2572
[mk-app] #6413 or #9157 #2572
[inst-discovered] theory-solving 0x0 basic# ; #6413
[mk-app] #6414 = #6413 #6412
[instance] 0x0 #6414
[attach-enode] #6414 0
[end-of-instance]
[mk-quant] #6413 internal_tuple__1./tuple__1_ext_equal_definition 5 #2574 #6412
[attach-var-names] #6413 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #9157 or #10843 #10213
[mk-app] #9167 not #9157
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #6414 = #2596 #9167
[instance] 0x0 #6414
[attach-enode] #6414 0
[end-of-instance]
[mk-app] #6414 not #9167
[inst-discovered] theory-solving 0x0 basic# ; #6414
[mk-app] #6415 = #6414 #9157
[instance] 0x0 #6415
[attach-enode] #6415 0
[end-of-instance]
[mk-app] #6414 or #10843 #10213 #2600
[mk-app] #6415 or #9157 #2600
[inst-discovered] theory-solving 0x0 basic# ; #6415
[mk-app] #6150 = #6415 #6414
[instance] 0x0 #6150
[attach-enode] #6150 0
[end-of-instance]
[mk-quant] #6415 internal_tuple__2./tuple__2_constructor_definition 6 #2602 #6414
[attach-var-names] #6415 (|_1!| ; |Poly|) (|_0!| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #9157 not #2646
[mk-app] #9167 not #2647
[mk-app] #6150 not #2650
[mk-app] #6161 not #2652
[mk-app] #6151 or #9157 #9167 #6150 #6161
[mk-app] #6163 not #6151
[inst-discovered] theory-solving 0x0 basic# ; #2653
[mk-app] #5874 = #2653 #6163
[instance] 0x0 #5874
[attach-enode] #5874 0
[end-of-instance]
[mk-app] #5874 not #6163
[inst-discovered] theory-solving 0x0 basic# ; #5874
[mk-app] #5885 = #5874 #6151
[instance] 0x0 #5885
[attach-enode] #5885 0
[end-of-instance]
[mk-app] #5874 or #9157 #9167 #6150 #6161 #2654
[mk-app] #5885 or #6151 #2654
[inst-discovered] theory-solving 0x0 basic# ; #5885
[mk-app] #5883 = #5885 #5874
[instance] 0x0 #5883
[attach-enode] #5883 0
[end-of-instance]
[mk-quant] #5885 internal_tuple__2./tuple__2_ext_equal_definition 7 #2656 #5874
[attach-var-names] #5885 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #6151 not #11634
[mk-app] #6163 or #6151 #11651
[mk-app] #5883 not #6163
[inst-discovered] theory-solving 0x0 basic# ; #11652
[mk-app] #5887 = #11652 #5883
[instance] 0x0 #5887
[attach-enode] #5887 0
[end-of-instance]
[mk-app] #5887 not #5883
[inst-discovered] theory-solving 0x0 basic# ; #5887
[mk-app] #5560 = #5887 #6163
[instance] 0x0 #5560
[attach-enode] #5560 0
[end-of-instance]
[mk-app] #5883 or #6151 #11651 #11643
[mk-app] #5887 or #6163 #11643
[inst-discovered] theory-solving 0x0 basic# ; #5887
[mk-app] #5560 = #5887 #5883
[instance] 0x0 #5560
[attach-enode] #5560 0
[end-of-instance]
[mk-app] #6163 not #5883
[mk-app] #5887 or #6163 #2674
[mk-quant] #5560 prelude_has_type_array_new 4 #2663 #5887
[attach-var-names] #5560 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #5564 not #2690
[mk-app] #5563 or #5564 #192
[mk-app] #5566 not #5563
[inst-discovered] theory-solving 0x0 basic# ; #2691
[mk-app] #5536 = #2691 #5566
[instance] 0x0 #5536
[attach-enode] #5536 0
[end-of-instance]
[mk-app] #5536 not #5566
[inst-discovered] theory-solving 0x0 basic# ; #5536
[mk-app] #5543 = #5536 #5563
[instance] 0x0 #5543
[attach-enode] #5543 0
[end-of-instance]
[mk-app] #5536 or #5564 #192 #2693
[mk-app] #5543 or #5563 #2693
[inst-discovered] theory-solving 0x0 basic# ; #5543
[mk-app] #5541 = #5543 #5536
[instance] 0x0 #5541
[attach-enode] #5541 0
[end-of-instance]
[mk-quant] #5543 prelude_has_type_array_index 7 #2695 #5536
[attach-var-names] #5543 (|i| ; |Poly|) (|Fn| ; |%%Function%%|) (|N| ; |Type|) (|Ndcr| ; |Dcr|) (|Nd| ; |Dcr|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #5563 not #2706
[mk-app] #5566 not #2707
[mk-app] #5541 or #5563 #5566
[mk-app] #5545 not #5541
[inst-discovered] theory-solving 0x0 basic# ; #2708
[mk-app] #2677 = #2708 #5545
[instance] 0x0 #2677
[attach-enode] #2677 0
[end-of-instance]
[mk-app] #2677 not #5545
[inst-discovered] theory-solving 0x0 basic# ; #2677
[mk-app] #2678 = #2677 #5541
[instance] 0x0 #2678
[attach-enode] #2678 0
[end-of-instance]
[mk-app] #2677 or #5563 #5566 #2711
[mk-app] #2678 or #5541 #2711
[inst-discovered] theory-solving 0x0 basic# ; #2678
[mk-app] #2687 = #2678 #2677
[instance] 0x0 #2687
[attach-enode] #2687 0
[end-of-instance]
[mk-quant] #2678 prelude_resolved_mut_ref 3 #2713 #2677
[attach-var-names] #2678 (|x| ; |Poly|) (|t| ; |Type|) (|d| ; |Dcr|)
[mk-app] #5541 not #2781
[mk-app] #5545 not #2783
[mk-app] #2687 not #2786
[mk-app] #1639 or #5541 #5545 #2687 #3429
[mk-app] #1640 not #1639
[inst-discovered] theory-solving 0x0 basic# ; #2793
[mk-app] #1641 = #2793 #1640
[instance] 0x0 #1641
[attach-enode] #1641 0
[end-of-instance]
[mk-app] #1641 or #2794 #1640
[mk-quant] #1642 internal_vstd__array__ArrayAdditionalSpecFns_trait_type_bounds_definition 4 #2791 #1641
[attach-var-names] #1642 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #1589 not #2798
[mk-app] #1590 or #1589 #5347 #3429
[mk-app] #1591 not #1590
[inst-discovered] theory-solving 0x0 basic# ; #2800
[mk-app] #12699 = #2800 #1591
[instance] 0x0 #12699
[attach-enode] #12699 0
[end-of-instance]
[mk-app] #12699 or #2804 #1591
[mk-quant] #12700 internal_vstd__pervasive__FnWithRequiresEnsures_trait_type_bounds_definition 6 #2802 #12699
[attach-var-names] #12700 (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #2793
[mk-app] #12701 = #2793 #1640
[instance] 0x0 #12701
[attach-enode] #12701 0
[end-of-instance]
[mk-app] #12701 or #2811 #1640
[mk-quant] #12705 internal_vstd__slice__SliceAdditionalSpecFns_trait_type_bounds_definition 4 #2809 #12701
[attach-var-names] #12705 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #2828
[mk-app] #12706 = #2828 #2828
[instance] 0x0 #12706
[attach-enode] #12706 0
[end-of-instance]
[mk-app] #12706 not #2837
[mk-app] #12707 or #12706 #2844
[mk-app] #12708 not #12707
[inst-discovered] theory-solving 0x0 basic# ; #2855
[mk-app] #12709 = #2855 #12708
[instance] 0x0 #12709
[attach-enode] #12709 0
[end-of-instance]
[mk-app] #12709 or #2859 #12708
[mk-quant] #12710 internal_vstd__std_specs__cmp__PartialOrdSpec_trait_type_bounds_definition 4 #2857 #12709
[attach-var-names] #12710 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12711 not #2862
[mk-app] #12712 not #2867
[mk-app] #12713 or #3429 #12711 #12712
[mk-app] #12714 not #12713
[inst-discovered] theory-solving 0x0 basic# ; #2868
[mk-app] #12715 = #2868 #12714
[instance] 0x0 #12715
[attach-enode] #12715 0
[end-of-instance]
[mk-app] #12715 or #2872 #12714
[mk-quant] #12716 internal_core__ops__function__FnOnce_trait_type_bounds_definition 4 #2870 #12715
[attach-var-names] #12716 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12717 or #2872 #3429 #12711
[mk-app] #12718 not #12717
[inst-discovered] theory-solving 0x0 basic# ; #2876
[mk-app] #12719 = #2876 #12718
[instance] 0x0 #12719
[attach-enode] #12719 0
[end-of-instance]
[mk-app] #12719 or #2880 #12718
[mk-quant] #12720 internal_core__ops__function__FnMut_trait_type_bounds_definition 4 #2878 #12719
[attach-var-names] #12720 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12721 or #2880 #3429 #12711
[mk-app] #12722 not #12721
[inst-discovered] theory-solving 0x0 basic# ; #2884
[mk-app] #12723 = #2884 #12722
[instance] 0x0 #12723
[attach-enode] #12723 0
[end-of-instance]
[mk-app] #12723 or #2888 #12722
[mk-quant] #12724 internal_core__ops__function__Fn_trait_type_bounds_definition 4 #2886 #12723
[attach-var-names] #12724 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12725 not #2912
[mk-app] #12726 not #2916
[mk-app] #12727 not #2919
[mk-app] #12728 not #2921
[mk-app] #12729 not #2922
[mk-app] #12730 or #12725 #12726 #12727 #12728 #12729
[mk-app] #12731 not #12730
[inst-discovered] theory-solving 0x0 basic# ; #2927
[mk-app] #12732 = #2927 #12731
[instance] 0x0 #12732
[attach-enode] #12732 0
[end-of-instance]
[mk-app] #12732 or #2928 #12731
[mk-quant] #12733 internal_core__iter__traits__collect__IntoIterator_trait_type_bounds_definition 2 #2925 #12732
[attach-var-names] #12733 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12734 not #2932
[mk-app] #12735 or #3429 #2827 #12734
[mk-app] #12736 not #12735
[inst-discovered] theory-solving 0x0 basic# ; #2933
[mk-app] #12737 = #2933 #12736
[instance] 0x0 #12737
[attach-enode] #12737 0
[end-of-instance]
[mk-app] #12737 or #2937 #12736
[mk-quant] #12738 internal_core__iter__range__Step_trait_type_bounds_definition 2 #2935 #12737
[attach-var-names] #12738 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12739 or #2900 #2907
[mk-app] #12740 not #12739
[inst-discovered] theory-solving 0x0 basic# ; #2948
[mk-app] #12741 = #2948 #12740
[instance] 0x0 #12741
[attach-enode] #12741 0
[end-of-instance]
[mk-app] #12741 or #2952 #12740
[mk-quant] #12742 internal_vstd__std_specs__iter__DoubleEndedIteratorSpec_trait_type_bounds_definition 2 #2950 #12741
[attach-var-names] #12742 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12743 or #3429 #2827 #12734 #2937
[mk-app] #12744 not #12743
[inst-discovered] theory-solving 0x0 basic# ; #2956
[mk-app] #12745 = #2956 #12744
[instance] 0x0 #12745
[attach-enode] #12745 0
[end-of-instance]
[mk-app] #12745 or #2960 #12744
[mk-quant] #12746 internal_vstd__std_specs__iter__StepSpec_trait_type_bounds_definition 2 #2958 #12745
[attach-var-names] #12746 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12747 not #2981
[mk-app] #12748 or #3429 #12747
[mk-app] #12749 not #12748
[inst-discovered] theory-solving 0x0 basic# ; #2982
[mk-app] #12750 = #2982 #12749
[instance] 0x0 #12750
[attach-enode] #12750 0
[end-of-instance]
[mk-app] #12750 or #2986 #12749
[mk-quant] #12751 internal_core__ops__arith__Add_trait_type_bounds_definition 4 #2984 #12750
[attach-var-names] #12751 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12752 or #2986 #3429
[mk-app] #12753 not #12752
[inst-discovered] theory-solving 0x0 basic# ; #2990
[mk-app] #12754 = #2990 #12753
[instance] 0x0 #12754
[attach-enode] #12754 0
[end-of-instance]
[mk-app] #12754 or #2994 #12753
[mk-quant] #12755 internal_vstd__std_specs__ops__AddSpec_trait_type_bounds_definition 4 #2992 #12754
[attach-var-names] #12755 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #3002
[mk-app] #12756 = #3002 #3002
[instance] 0x0 #12756
[attach-enode] #12756 0
[end-of-instance]
[mk-app] #12756 or #3001 #3429
[mk-app] #12757 not #12756
[inst-discovered] theory-solving 0x0 basic# ; #3005
[mk-app] #12758 = #3005 #12757
[instance] 0x0 #12758
[attach-enode] #12758 0
[end-of-instance]
[mk-app] #12758 or #3009 #12757
[mk-quant] #12759 internal_vstd__std_specs__ops__AddAssignSpec_trait_type_bounds_definition 4 #3007 #12758
[attach-var-names] #12759 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12760 not #3014
[mk-app] #12761 or #3429 #12760
[mk-app] #12762 not #12761
[inst-discovered] theory-solving 0x0 basic# ; #3015
[mk-app] #12763 = #3015 #12762
[instance] 0x0 #12763
[attach-enode] #12763 0
[end-of-instance]
[mk-app] #12763 or #3019 #12762
[mk-quant] #12764 internal_core__ops__arith__Sub_trait_type_bounds_definition 4 #3017 #12763
[attach-var-names] #12764 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12765 or #3019 #3429
[mk-app] #12766 not #12765
[inst-discovered] theory-solving 0x0 basic# ; #3023
[mk-app] #12767 = #3023 #12766
[instance] 0x0 #12767
[attach-enode] #12767 0
[end-of-instance]
[mk-app] #12767 or #3027 #12766
[mk-quant] #12768 internal_vstd__std_specs__ops__SubSpec_trait_type_bounds_definition 4 #3025 #12767
[attach-var-names] #12768 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #3035
[mk-app] #12769 = #3035 #3035
[instance] 0x0 #12769
[attach-enode] #12769 0
[end-of-instance]
[mk-app] #12769 or #3034 #3429
[mk-app] #12770 not #12769
[inst-discovered] theory-solving 0x0 basic# ; #3038
[mk-app] #12771 = #3038 #12770
[instance] 0x0 #12771
[attach-enode] #12771 0
[end-of-instance]
[mk-app] #12771 or #3042 #12770
[mk-quant] #12772 internal_vstd__std_specs__ops__SubAssignSpec_trait_type_bounds_definition 4 #3040 #12771
[attach-var-names] #12772 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12773 not #3047
[mk-app] #12774 or #3429 #12773
[mk-app] #12775 not #12774
[inst-discovered] theory-solving 0x0 basic# ; #3048
[mk-app] #12776 = #3048 #12775
[instance] 0x0 #12776
[attach-enode] #12776 0
[end-of-instance]
[mk-app] #12776 or #3052 #12775
[mk-quant] #12777 internal_core__ops__arith__Mul_trait_type_bounds_definition 4 #3050 #12776
[attach-var-names] #12777 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12778 or #3052 #3429
[mk-app] #12779 not #12778
[inst-discovered] theory-solving 0x0 basic# ; #3056
[mk-app] #12780 = #3056 #12779
[instance] 0x0 #12780
[attach-enode] #12780 0
[end-of-instance]
[mk-app] #12780 or #3060 #12779
[mk-quant] #12781 internal_vstd__std_specs__ops__MulSpec_trait_type_bounds_definition 4 #3058 #12780
[attach-var-names] #12781 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12782 not #3065
[mk-app] #12783 or #3429 #12782
[mk-app] #12784 not #12783
[inst-discovered] theory-solving 0x0 basic# ; #3066
[mk-app] #12785 = #3066 #12784
[instance] 0x0 #12785
[attach-enode] #12785 0
[end-of-instance]
[mk-app] #12785 or #3070 #12784
[mk-quant] #12786 internal_core__ops__arith__Div_trait_type_bounds_definition 4 #3068 #12785
[attach-var-names] #12786 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12787 or #3070 #3429
[mk-app] #12788 not #12787
[inst-discovered] theory-solving 0x0 basic# ; #3074
[mk-app] #12789 = #3074 #12788
[instance] 0x0 #12789
[attach-enode] #12789 0
[end-of-instance]
[mk-app] #12789 or #3078 #12788
[mk-quant] #12790 internal_vstd__std_specs__ops__DivSpec_trait_type_bounds_definition 4 #3076 #12789
[attach-var-names] #12790 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12791 or #5347 #3429
[mk-app] #12792 not #12791
[inst-discovered] theory-solving 0x0 basic# ; #3082
[mk-app] #12793 = #3082 #12792
[instance] 0x0 #12793
[attach-enode] #12793 0
[end-of-instance]
[mk-app] #12793 or #3086 #12792
[mk-quant] #12794 internal_vstd__std_specs__option__OptionAdditionalFns_trait_type_bounds_definition 4 #3084 #12793
[attach-var-names] #12794 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #2793
[mk-app] #12795 = #2793 #1640
[instance] 0x0 #12795
[attach-enode] #12795 0
[end-of-instance]
[mk-app] #12795 or #3093 #1640
[mk-quant] #12796 internal_vstd__std_specs__vec__VecAdditionalSpecFns_trait_type_bounds_definition 4 #3091 #12795
[attach-var-names] #12796 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12797 or #3429 #2834
[mk-app] #12798 not #12797
[inst-discovered] theory-solving 0x0 basic# ; #3097
[mk-app] #12799 = #3097 #12798
[instance] 0x0 #12799
[attach-enode] #12799 0
[end-of-instance]
[mk-app] #12799 or #3101 #12798
[mk-quant] #12800 internal_core__num__nonzero__ZeroablePrimitive_trait_type_bounds_definition 2 #3099 #12799
[attach-var-names] #12800 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12801 or #3429 #2834 #3101
[mk-app] #12802 not #12801
[inst-discovered] theory-solving 0x0 basic# ; #3105
[mk-app] #12803 = #3105 #12802
[instance] 0x0 #12803
[attach-enode] #12803 0
[end-of-instance]
[mk-app] #12803 or #3109 #12802
[mk-quant] #12804 internal_vstd__std_specs__nonzero__ZeroablePrimitiveSpec_trait_type_bounds_definition 2 #3107 #12803
[attach-var-names] #12804 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #3117
[mk-app] #12805 = #3117 #3117
[instance] 0x0 #12805
[attach-enode] #12805 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3124
[mk-app] #12805 = #3124 #3124
[instance] 0x0 #12805
[attach-enode] #12805 0
[end-of-instance]
[mk-app] #12805 not #3128
[mk-app] #12806 or #3429 #12805
[mk-app] #12807 not #12806
[inst-discovered] theory-solving 0x0 basic# ; #3129
[mk-app] #12808 = #3129 #12807
[instance] 0x0 #12808
[attach-enode] #12808 0
[end-of-instance]
[mk-app] #12808 or #3133 #12807
[mk-quant] #12809 internal_g1__g__Index_trait_type_bounds_definition 4 #3131 #12808
[attach-var-names] #12809 (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12810 or #3133 #3429
[mk-app] #12811 not #12810
[inst-discovered] theory-solving 0x0 basic# ; #3137
[mk-app] #12812 = #3137 #12811
[instance] 0x0 #12812
[attach-enode] #12812 0
[end-of-instance]
[mk-app] #12812 or #3141 #12811
[mk-quant] #12813 internal_g1__g__IndexMut_trait_type_bounds_definition 4 #3139 #12812
[attach-var-names] #12813 (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12814 not #3145
[mk-app] #12815 not #3147
[mk-app] #12816 not #3149
[mk-app] #12817 not #3151
[mk-app] #12818 not #3152
[mk-app] #12819 not #3154
[mk-app] #12820 not #3156
[mk-app] #12821 not #3158
[mk-app] #12822 not #3159
[mk-app] #12823 not #3161
[mk-app] #12824 not #3163
[mk-app] #12825 not #3165
[mk-app] #12826 not #3166
[mk-app] #12827 not #3168
[mk-app] #12828 not #3170
[mk-app] #12829 not #3172
[mk-app] #12830 not #3173
[mk-app] #12831 not #3175
[mk-app] #12832 not #3177
[mk-app] #12833 not #3178
[mk-app] #12834 not #3179
[mk-app] #12835 not #3180
[mk-app] #12836 not #3181
[mk-app] #12837 not #3182
[mk-app] #12838 not #3183
[mk-app] #12839 or #3429 #2834 #3116 #3123 #12814 #12815 #12816 #12817 #12818 #12819 #12820 #12821 #12822 #12823 #12824 #12825 #12826 #12827 #12828 #12829 #2969 #12830 #12831 #2976 #12832 #12833 #12834 #12835 #12836 #12837 #12734 #12838
[mk-app] #12840 not #12839
[inst-discovered] theory-solving 0x0 basic# ; #3188
[mk-app] #12841 = #3188 #12840
[instance] 0x0 #12841
[attach-enode] #12841 0
[end-of-instance]
[mk-app] #12841 or #3189 #12840
[mk-quant] #12842 internal_g1__g__MatrixDataTypeBase_trait_type_bounds_definition 2 #3186 #12841
[attach-var-names] #12842 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12843 not #3202
[mk-app] #12844 not #3204
[mk-app] #12845 not #3207
[mk-app] #12846 not #3209
[mk-app] #12847 not #3211
[mk-app] #12848 not #3213
[mk-app] #12849 not #3214
[mk-app] #12850 not #3215
[mk-app] #12851 or #12843 #12844 #3429 #12845 #12846 #12847 #12848 #12849 #12850
[mk-app] #12852 not #12851
[inst-discovered] theory-solving 0x0 basic# ; #3220
[mk-app] #12853 = #3220 #12852
[instance] 0x0 #12853
[attach-enode] #12853 0
[end-of-instance]
[mk-app] #12853 or #3221 #12852
[mk-quant] #12854 internal_g1__matrix__traits__AsMatrix_trait_type_bounds_definition 8 #3218 #12853
[attach-var-names] #12854 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12855 not #3227
[mk-app] #12856 not #3229
[mk-app] #12857 not #3231
[mk-app] #12858 not #3233
[mk-app] #12859 not #3234
[mk-app] #12860 not #3235
[mk-app] #12861 not #3236
[mk-app] #12862 not #3237
[mk-app] #12863 not #3238
[mk-app] #12864 or #3221 #12843 #12844 #3429 #12855 #12856 #12857 #12858 #12859 #12860 #12861 #12862 #12863
[mk-app] #12865 not #12864
[inst-discovered] theory-solving 0x0 basic# ; #3243
[mk-app] #12866 = #3243 #12865
[instance] 0x0 #12866
[attach-enode] #12866 0
[end-of-instance]
[mk-app] #12866 or #3244 #12865
[mk-quant] #12867 internal_g1__matrix__traits__AsMatrixMut_trait_type_bounds_definition 8 #3241 #12866
[attach-var-names] #12867 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12868 not #3249
[mk-app] #12869 not #3251
[mk-app] #12870 not #3253
[mk-app] #12871 or #3374 #12868 #12869 #12870 #12843 #12844 #3429
[mk-app] #12872 not #12871
[inst-discovered] theory-solving 0x0 basic# ; #3259
[mk-app] #12873 = #3259 #12872
[instance] 0x0 #12873
[attach-enode] #12873 0
[end-of-instance]
[mk-app] #12873 or #3260 #12872
[mk-quant] #12874 internal_g1__matrix__traits__Matrix_trait_type_bounds_definition 8 #3257 #12873
[attach-var-names] #12874 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12875 or #3260 #12843 #12844 #3429
[mk-app] #12876 not #12875
[inst-discovered] theory-solving 0x0 basic# ; #3264
[mk-app] #12877 = #3264 #12876
[instance] 0x0 #12877
[attach-enode] #12877 0
[end-of-instance]
[mk-app] #12877 or #3268 #12876
[mk-quant] #12878 internal_g1__matrix__traits__MatrixOps0_trait_type_bounds_definition 8 #3266 #12877
[attach-var-names] #12878 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #3264
[mk-app] #12879 = #3264 #12876
[instance] 0x0 #12879
[attach-enode] #12879 0
[end-of-instance]
[mk-app] #12879 or #3275 #12876
[mk-quant] #12880 internal_g1__matrix__traits__MatrixOps1_trait_type_bounds_definition 8 #3273 #12879
[attach-var-names] #12880 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12881 not #3279
[mk-app] #12882 or #12881 #12844 #3429
[mk-app] #12883 not #12882
[inst-discovered] theory-solving 0x0 basic# ; #3280
[mk-app] #12884 = #3280 #12883
[instance] 0x0 #12884
[attach-enode] #12884 0
[end-of-instance]
[mk-app] #12884 or #3284 #12883
[mk-quant] #12885 internal_g1__matrix__traits__SquareMatrix_trait_type_bounds_definition 6 #3282 #12884
[attach-var-names] #12885 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12886 or #3284 #12844 #3429
[mk-app] #12887 not #12886
[inst-discovered] theory-solving 0x0 basic# ; #3288
[mk-app] #12888 = #3288 #12887
[instance] 0x0 #12888
[attach-enode] #12888 0
[end-of-instance]
[mk-app] #12888 or #3292 #12887
[mk-quant] #12889 internal_g1__matrix__traits__SquareMatrixOps0_trait_type_bounds_definition 6 #3290 #12888
[attach-var-names] #12889 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12890 not #3296
[mk-app] #12891 or #12890 #3284 #12844 #3429
[mk-app] #12892 not #12891
[inst-discovered] theory-solving 0x0 basic# ; #3297
[mk-app] #12893 = #3297 #12892
[instance] 0x0 #12893
[attach-enode] #12893 0
[end-of-instance]
[mk-app] #12893 or #3301 #12892
[mk-quant] #12894 internal_g1__matrix__traits__SquareMatrixMut_trait_type_bounds_definition 6 #3299 #12893
[attach-var-names] #12894 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12895 not #3306
[mk-app] #12896 or #12895 #3429
[mk-app] #12897 not #12896
[inst-discovered] theory-solving 0x0 basic# ; #3307
[mk-app] #12898 = #3307 #12897
[instance] 0x0 #12898
[attach-enode] #12898 0
[end-of-instance]
[mk-app] #12898 or #3311 #12897
[mk-quant] #12899 internal_g1__matrix__traits__Scalar_trait_type_bounds_definition 4 #3309 #12898
[attach-var-names] #12899 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12900 not #3315
[mk-app] #12901 or #12900 #12844 #3429
[mk-app] #12902 not #12901
[inst-discovered] theory-solving 0x0 basic# ; #3316
[mk-app] #12903 = #3316 #12902
[instance] 0x0 #12903
[attach-enode] #12903 0
[end-of-instance]
[mk-app] #12903 or #3320 #12902
[mk-quant] #12904 internal_g1__matrix__traits__RowVector_trait_type_bounds_definition 6 #3318 #12903
[attach-var-names] #12904 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12905 not #3324
[mk-app] #12906 or #12905 #12844 #3429
[mk-app] #12907 not #12906
[inst-discovered] theory-solving 0x0 basic# ; #3325
[mk-app] #12908 = #3325 #12907
[instance] 0x0 #12908
[attach-enode] #12908 0
[end-of-instance]
[mk-app] #12908 or #3329 #12907
[mk-quant] #12909 internal_g1__matrix__traits__ColumnVector_trait_type_bounds_definition 6 #3327 #12908
[attach-var-names] #12909 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12910 not #3333
[mk-app] #12911 or #12910 #3429
[mk-app] #12912 not #12911
[inst-discovered] theory-solving 0x0 basic# ; #3334
[mk-app] #12913 = #3334 #12912
[instance] 0x0 #12913
[attach-enode] #12913 0
[end-of-instance]
[mk-app] #12913 or #3338 #12912
[mk-quant] #12914 internal_g1__matrix__traits__ScalarMut_trait_type_bounds_definition 4 #3336 #12913
[attach-var-names] #12914 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12915 not #3342
[mk-app] #12916 or #12915 #3320 #12844 #3429
[mk-app] #12917 not #12916
[inst-discovered] theory-solving 0x0 basic# ; #3343
[mk-app] #12918 = #3343 #12917
[instance] 0x0 #12918
[attach-enode] #12918 0
[end-of-instance]
[mk-app] #12918 or #3347 #12917
[mk-quant] #12919 internal_g1__matrix__traits__RowVectorMut_trait_type_bounds_definition 6 #3345 #12918
[attach-var-names] #12919 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12920 not #3351
[mk-app] #12921 or #12920 #3329 #12844 #3429
[mk-app] #12922 not #12921
[inst-discovered] theory-solving 0x0 basic# ; #3352
[mk-app] #12923 = #3352 #12922
[instance] 0x0 #12923
[attach-enode] #12923 0
[end-of-instance]
[mk-app] #12923 or #3356 #12922
[mk-quant] #12924 internal_g1__matrix__traits__ColumnVectorMut_trait_type_bounds_definition 6 #3354 #12923
[attach-var-names] #12924 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12925 not #3361
[mk-app] #12926 or #3260 #3381 #12925 #12869 #12870 #12843 #12844 #3429
[mk-app] #12927 not #12926
[inst-discovered] theory-solving 0x0 basic# ; #3366
[mk-app] #12928 = #3366 #12927
[instance] 0x0 #12928
[attach-enode] #12928 0
[end-of-instance]
[mk-app] #12928 or #3367 #12927
[mk-quant] #12929 internal_g1__matrix__traits__MatrixMut_trait_type_bounds_definition 8 #3364 #12928
[attach-var-names] #12929 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12930 or #12843 #12844 #3429
[mk-app] #12931 not #12930
[inst-discovered] theory-solving 0x0 basic# ; #3370
[mk-app] #12932 = #3370 #12931
[instance] 0x0 #12932
[attach-enode] #12932 0
[end-of-instance]
[mk-app] #12932 or #3374 #12931
[mk-quant] #12933 internal_g1__matrix__row_major__RowMajorSequentialData_trait_type_bounds_definition 8 #3372 #12932
[attach-var-names] #12933 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12934 or #3374 #12843 #12844 #3429
[mk-app] #12935 not #12934
[inst-discovered] theory-solving 0x0 basic# ; #3377
[mk-app] #12936 = #3377 #12935
[instance] 0x0 #12936
[attach-enode] #12936 0
[end-of-instance]
[mk-app] #12936 or #3381 #12935
[mk-quant] #12937 internal_g1__matrix__row_major__RowMajorSequentialDataMut_trait_type_bounds_definition 8 #3379 #12936
[attach-var-names] #12937 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12938 not #3385
[mk-app] #12939 or #5347 #12938
[mk-app] #12940 not #12939
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #12941 = #3386 #12940
[instance] 0x0 #12941
[attach-enode] #12941 0
[end-of-instance]
[mk-app] #12941 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #12941
[mk-app] #12942 = #12941 #12939
[instance] 0x0 #12942
[attach-enode] #12942 0
[end-of-instance]
[mk-app] #12941 or #5347 #12938 #3389
[mk-app] #12942 or #12939 #3389
[inst-discovered] theory-solving 0x0 basic# ; #12942
[mk-app] #12943 = #12942 #12941
[instance] 0x0 #12943
[attach-enode] #12943 0
[end-of-instance]
[mk-quant] #12942 internal_proj____vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_true_definition 4 #3391 #12941
[attach-var-names] #12942 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12939 or #5347 #12938
[mk-app] #12940 not #12939
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #12943 = #3386 #12940
[instance] 0x0 #12943
[attach-enode] #12943 0
[end-of-instance]
[mk-app] #12943 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #12943
[mk-app] #12944 = #12943 #12939
[instance] 0x0 #12944
[attach-enode] #12944 0
[end-of-instance]
[mk-app] #12943 or #5347 #12938 #3398
[mk-app] #12944 or #12939 #3398
[inst-discovered] theory-solving 0x0 basic# ; #12944
[mk-app] #12945 = #12944 #12943
[instance] 0x0 #12945
[attach-enode] #12945 0
[end-of-instance]
[mk-quant] #12944 internal_proj__vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_false_definition 4 #3400 #12943
[attach-var-names] #12944 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12939 or #3429 #2820
[mk-app] #12940 not #12939
[inst-discovered] theory-solving 0x0 basic# ; #3470
[mk-app] #12945 = #3470 #12940
[instance] 0x0 #12945
[attach-enode] #12945 0
[end-of-instance]
[mk-app] #12945 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #12945
[mk-app] #12946 = #12945 #12939
[instance] 0x0 #12946
[attach-enode] #12946 0
[end-of-instance]
[mk-app] #12945 or #3429 #2820 #3473
[mk-app] #12946 or #12939 #3473
[inst-discovered] theory-solving 0x0 basic# ; #12946
[mk-app] #12947 = #12946 #12945
[instance] 0x0 #12947
[attach-enode] #12947 0
[end-of-instance]
[mk-quant] #12946 internal_proj____vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_true_definition 2 #3475 #12945
[attach-var-names] #12946 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12939 or #3429 #2820
[mk-app] #12940 not #12939
[inst-discovered] theory-solving 0x0 basic# ; #3470
[mk-app] #12947 = #3470 #12940
[instance] 0x0 #12947
[attach-enode] #12947 0
[end-of-instance]
[mk-app] #12947 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #12947
[mk-app] #12948 = #12947 #12939
[instance] 0x0 #12948
[attach-enode] #12948 0
[end-of-instance]
[mk-app] #12947 or #3429 #2820 #3481
[mk-app] #12948 or #12939 #3481
[inst-discovered] theory-solving 0x0 basic# ; #12948
[mk-app] #12949 = #12948 #12947
[instance] 0x0 #12949
[attach-enode] #12949 0
[end-of-instance]
[mk-quant] #12948 internal_proj__vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_false_definition 2 #3483 #12947
[attach-var-names] #12948 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12939 or #3429 #2820
[mk-app] #12940 not #12939
[inst-discovered] theory-solving 0x0 basic# ; #3470
[mk-app] #12949 = #3470 #12940
[instance] 0x0 #12949
[attach-enode] #12949 0
[end-of-instance]
[mk-app] #12949 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #12949
[mk-app] #12950 = #12949 #12939
[instance] 0x0 #12950
[attach-enode] #12950 0
[end-of-instance]
[mk-app] #12949 or #3429 #2820 #3489
[mk-app] #12950 or #12939 #3489
[inst-discovered] theory-solving 0x0 basic# ; #12950
[mk-app] #12951 = #12950 #12949
[instance] 0x0 #12951
[attach-enode] #12951 0
[end-of-instance]
[mk-quant] #12950 internal_proj____vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_true_definition 2 #3491 #12949
[attach-var-names] #12950 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12939 or #3429 #2820
[mk-app] #12940 not #12939
[inst-discovered] theory-solving 0x0 basic# ; #3470
[mk-app] #12951 = #3470 #12940
[instance] 0x0 #12951
[attach-enode] #12951 0
[end-of-instance]
[mk-app] #12951 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #12951
[mk-app] #12952 = #12951 #12939
[instance] 0x0 #12952
[attach-enode] #12952 0
[end-of-instance]
[mk-app] #12951 or #3429 #2820 #3496
[mk-app] #12952 or #12939 #3496
[inst-discovered] theory-solving 0x0 basic# ; #12952
[mk-app] #12953 = #12952 #12951
[instance] 0x0 #12953
[attach-enode] #12953 0
[end-of-instance]
[mk-quant] #12952 internal_proj__vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_false_definition 2 #3498 #12951
[attach-var-names] #12952 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12939 not #2891
[mk-app] #12940 or #5347 #3429 #12939
[mk-app] #12953 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #12954 = #3502 #12953
[instance] 0x0 #12954
[attach-enode] #12954 0
[end-of-instance]
[mk-app] #12954 not #12953
[inst-discovered] theory-solving 0x0 basic# ; #12954
[mk-app] #12955 = #12954 #12940
[instance] 0x0 #12955
[attach-enode] #12955 0
[end-of-instance]
[mk-app] #12954 or #5347 #3429 #12939 #3505
[mk-app] #12955 or #12940 #3505
[inst-discovered] theory-solving 0x0 basic# ; #12955
[mk-app] #12956 = #12955 #12954
[instance] 0x0 #12956
[attach-enode] #12956 0
[end-of-instance]
[mk-quant] #12955 internal_proj____vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_true_definition 4 #3507 #12954
[attach-var-names] #12955 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12940 or #5347 #3429 #12939
[mk-app] #12953 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #12956 = #3502 #12953
[instance] 0x0 #12956
[attach-enode] #12956 0
[end-of-instance]
[mk-app] #12956 not #12953
[inst-discovered] theory-solving 0x0 basic# ; #12956
[mk-app] #12957 = #12956 #12940
[instance] 0x0 #12957
[attach-enode] #12957 0
[end-of-instance]
[mk-app] #12956 or #5347 #3429 #12939 #3513
[mk-app] #12957 or #12940 #3513
[inst-discovered] theory-solving 0x0 basic# ; #12957
[mk-app] #12958 = #12957 #12956
[instance] 0x0 #12958
[attach-enode] #12958 0
[end-of-instance]
[mk-quant] #12957 internal_proj__vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_false_definition 4 #3515 #12956
[attach-var-names] #12957 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12940 or #3429 #2820
[mk-app] #12953 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #3470
[mk-app] #12958 = #3470 #12953
[instance] 0x0 #12958
[attach-enode] #12958 0
[end-of-instance]
[mk-app] #12958 not #12953
[inst-discovered] theory-solving 0x0 basic# ; #12958
[mk-app] #12959 = #12958 #12940
[instance] 0x0 #12959
[attach-enode] #12959 0
[end-of-instance]
[mk-app] #12958 or #3429 #2820 #3593
[mk-app] #12959 or #12940 #3593
[inst-discovered] theory-solving 0x0 basic# ; #12959
[mk-app] #12960 = #12959 #12958
[instance] 0x0 #12960
[attach-enode] #12960 0
[end-of-instance]
[mk-quant] #12959 internal_proj____vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_true_definition 2 #3595 #12958
[attach-var-names] #12959 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #12940 or #3429 #2820
[mk-app] #12953 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #3470
[mk-app] #12960 = #3470 #12953
[instance] 0x0 #12960
[attach-enode] #12960 0
[end-of-instance]
[mk-app] #12960 not #12953
[inst-discovered] theory-solving 0x0 basic# ; #12960
[mk-app] #12961 = #12960 #12940
[instance] 0x0 #12961
[attach-enode] #12961 0
[end-of-instance]
[mk-app] #12960 or #3429 #2820 #3601
[mk-app] #12961 or #12940 #3601
[inst-discovered] theory-solving 0x0 basic# ; #12961
[mk-app] #12962 = #12961 #12960
[instance] 0x0 #12962
[attach-enode] #12962 0
[end-of-instance]
[mk-quant] #12961 internal_proj__vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_false_definition 2 #3603 #12960
[attach-var-names] #12961 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #12940 or #5347 #3429 #5541 #2820
[mk-app] #12953 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #3607
[mk-app] #12962 = #3607 #12953
[instance] 0x0 #12962
[attach-enode] #12962 0
[end-of-instance]
[mk-app] #12962 not #12953
[inst-discovered] theory-solving 0x0 basic# ; #12962
[mk-app] #12963 = #12962 #12940
[instance] 0x0 #12963
[attach-enode] #12963 0
[end-of-instance]
[mk-app] #12962 or #5347 #3429 #5541 #2820 #3610
[mk-app] #12963 or #12940 #3610
[inst-discovered] theory-solving 0x0 basic# ; #12963
[mk-app] #12964 = #12963 #12962
[instance] 0x0 #12964
[attach-enode] #12964 0
[end-of-instance]
[mk-quant] #12963 internal_proj____vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_true_definition 4 #3612 #12962
[attach-var-names] #12963 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #12940 or #5347 #3429 #5541 #2820
[mk-app] #12953 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #3607
[mk-app] #12964 = #3607 #12953
[instance] 0x0 #12964
[attach-enode] #12964 0
[end-of-instance]
[mk-app] #12964 not #12953
[inst-discovered] theory-solving 0x0 basic# ; #12964
[mk-app] #12965 = #12964 #12940
[instance] 0x0 #12965
[attach-enode] #12965 0
[end-of-instance]
[mk-app] #12964 or #5347 #3429 #5541 #2820 #3619
[mk-app] #12965 or #12940 #3619
[inst-discovered] theory-solving 0x0 basic# ; #12965
[mk-app] #12966 = #12965 #12964
[instance] 0x0 #12966
[attach-enode] #12966 0
[end-of-instance]
[mk-quant] #12965 internal_proj__vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_false_definition 4 #3621 #12964
[attach-var-names] #12965 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #12940 or #3429 #3101
[mk-app] #12953 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #3641
[mk-app] #12966 = #3641 #12953
[instance] 0x0 #12966
[attach-enode] #12966 0
[end-of-instance]
[mk-app] #12966 not #12953
[inst-discovered] theory-solving 0x0 basic# ; #12966
[mk-app] #12967 = #12966 #12940
[instance] 0x0 #12967
[attach-enode] #12967 0
[end-of-instance]
[mk-app] #12966 or #3429 #3101 #3644
[mk-app] #12967 or #12940 #3644
[inst-discovered] theory-solving 0x0 basic# ; #12967
[mk-app] #12968 = #12967 #12966
[instance] 0x0 #12968
[attach-enode] #12968 0
[end-of-instance]
[mk-quant] #12967 internal_proj____vstd!view.View./V_vstd__std_specs__nonzero__impl&__11_assoc_type_impl_true_definition 2 #3646 #12966
[attach-var-names] #12967 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12940 or #3429 #3101
[mk-app] #12953 not #12940
[inst-discovered] theory-solving 0x0 basic# ; #3641
[mk-app] #12968 = #3641 #12953
[instance] 0x0 #12968
[attach-enode] #12968 0
[end-of-instance]
[mk-app] #12968 not #12953
[inst-discovered] theory-solving 0x0 basic# ; #12968
[mk-app] #12969 = #12968 #12940
[instance] 0x0 #12969
[attach-enode] #12969 0
[end-of-instance]
[mk-app] #12968 or #3429 #3101 #3652
[mk-app] #12969 or #12940 #3652
[inst-discovered] theory-solving 0x0 basic# ; #12969
[mk-app] #12970 = #12969 #12968
[instance] 0x0 #12970
[attach-enode] #12970 0
[end-of-instance]
[mk-quant] #12969 internal_proj__vstd!view.View./V_vstd__std_specs__nonzero__impl&__11_assoc_type_impl_false_definition 2 #3654 #12968
[attach-var-names] #12969 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12940 not #4603
[mk-app] #12953 not #4604
[mk-app] #12970 or #5347 #12940 #12953
[mk-app] #12971 not #12970
[inst-discovered] theory-solving 0x0 basic# ; #4605
[mk-app] #12972 = #4605 #12971
[instance] 0x0 #12972
[attach-enode] #12972 0
[end-of-instance]
[mk-app] #12972 not #12971
[inst-discovered] theory-solving 0x0 basic# ; #12972
[mk-app] #12973 = #12972 #12970
[instance] 0x0 #12973
[attach-enode] #12973 0
[end-of-instance]
[mk-app] #12972 or #5347 #12940 #12953 #4608
[mk-app] #12973 or #12970 #4608
[inst-discovered] theory-solving 0x0 basic# ; #12973
[mk-app] #12974 = #12973 #12972
[instance] 0x0 #12974
[attach-enode] #12974 0
[end-of-instance]
[mk-quant] #12973 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_true_definition 4 #4610 #12972
[attach-var-names] #12973 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12970 or #5347 #12940 #12953
[mk-app] #12971 not #12970
[inst-discovered] theory-solving 0x0 basic# ; #4605
[mk-app] #12974 = #4605 #12971
[instance] 0x0 #12974
[attach-enode] #12974 0
[end-of-instance]
[mk-app] #12974 not #12971
[inst-discovered] theory-solving 0x0 basic# ; #12974
[mk-app] #12975 = #12974 #12970
[instance] 0x0 #12975
[attach-enode] #12975 0
[end-of-instance]
[mk-app] #12974 or #5347 #12940 #12953 #4617
[mk-app] #12975 or #12970 #4617
[inst-discovered] theory-solving 0x0 basic# ; #12975
[mk-app] #12976 = #12975 #12974
[instance] 0x0 #12976
[attach-enode] #12976 0
[end-of-instance]
[mk-quant] #12975 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_false_definition 4 #4619 #12974
[attach-var-names] #12975 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12970 not #4623
[mk-app] #12971 or #5347 #12940 #12970
[mk-app] #12976 not #12971
[inst-discovered] theory-solving 0x0 basic# ; #4624
[mk-app] #12977 = #4624 #12976
[instance] 0x0 #12977
[attach-enode] #12977 0
[end-of-instance]
[mk-app] #12977 not #12976
[inst-discovered] theory-solving 0x0 basic# ; #12977
[mk-app] #12978 = #12977 #12971
[instance] 0x0 #12978
[attach-enode] #12978 0
[end-of-instance]
[mk-app] #12977 or #5347 #12940 #12970 #4626
[mk-app] #12978 or #12971 #4626
[inst-discovered] theory-solving 0x0 basic# ; #12978
[mk-app] #12979 = #12978 #12977
[instance] 0x0 #12979
[attach-enode] #12979 0
[end-of-instance]
[mk-quant] #12978 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_true_definition 4 #4628 #12977
[attach-var-names] #12978 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12971 or #5347 #12940 #12970
[mk-app] #12976 not #12971
[inst-discovered] theory-solving 0x0 basic# ; #4624
[mk-app] #12979 = #4624 #12976
[instance] 0x0 #12979
[attach-enode] #12979 0
[end-of-instance]
[mk-app] #12979 not #12976
[inst-discovered] theory-solving 0x0 basic# ; #12979
[mk-app] #12980 = #12979 #12971
[instance] 0x0 #12980
[attach-enode] #12980 0
[end-of-instance]
[mk-app] #12979 or #5347 #12940 #12970 #4634
[mk-app] #12980 or #12971 #4634
[inst-discovered] theory-solving 0x0 basic# ; #12980
[mk-app] #12981 = #12980 #12979
[instance] 0x0 #12981
[attach-enode] #12981 0
[end-of-instance]
[mk-quant] #12980 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_false_definition 4 #4636 #12979
[attach-var-names] #12980 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12971 not #4640
[mk-app] #12976 not #4641
[mk-app] #12981 or #1589 #3429 #12971 #12976 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #4642
[mk-app] #12983 = #4642 #12982
[instance] 0x0 #12983
[attach-enode] #12983 0
[end-of-instance]
[mk-app] #12983 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #12983
[mk-app] #12984 = #12983 #12981
[instance] 0x0 #12984
[attach-enode] #12984 0
[end-of-instance]
[mk-app] #12983 or #1589 #3429 #12971 #12976 #12939 #4646
[mk-app] #12984 or #12981 #4646
[inst-discovered] theory-solving 0x0 basic# ; #12984
[mk-app] #12985 = #12984 #12983
[instance] 0x0 #12985
[attach-enode] #12985 0
[end-of-instance]
[mk-quant] #12984 internal_proj____core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_true_definition 6 #4648 #12983
[attach-var-names] #12984 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #12981 or #1589 #3429 #12971 #12976 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #4642
[mk-app] #12985 = #4642 #12982
[instance] 0x0 #12985
[attach-enode] #12985 0
[end-of-instance]
[mk-app] #12985 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #12985
[mk-app] #12986 = #12985 #12981
[instance] 0x0 #12986
[attach-enode] #12986 0
[end-of-instance]
[mk-app] #12985 or #1589 #3429 #12971 #12976 #12939 #4655
[mk-app] #12986 or #12981 #4655
[inst-discovered] theory-solving 0x0 basic# ; #12986
[mk-app] #12987 = #12986 #12985
[instance] 0x0 #12987
[attach-enode] #12987 0
[end-of-instance]
[mk-quant] #12986 internal_proj__core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_false_definition 6 #4657 #12985
[attach-var-names] #12986 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2900
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #4661
[mk-app] #12987 = #4661 #12982
[instance] 0x0 #12987
[attach-enode] #12987 0
[end-of-instance]
[mk-app] #12987 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #12987
[mk-app] #12988 = #12987 #12981
[instance] 0x0 #12988
[attach-enode] #12988 0
[end-of-instance]
[mk-app] #12987 or #3429 #2900 #4662
[mk-app] #12988 or #12981 #4662
[inst-discovered] theory-solving 0x0 basic# ; #12988
[mk-app] #12989 = #12988 #12987
[instance] 0x0 #12989
[attach-enode] #12989 0
[end-of-instance]
[mk-quant] #12988 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #4664 #12987
[attach-var-names] #12988 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2900
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #4661
[mk-app] #12989 = #4661 #12982
[instance] 0x0 #12989
[attach-enode] #12989 0
[end-of-instance]
[mk-app] #12989 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #12989
[mk-app] #12990 = #12989 #12981
[instance] 0x0 #12990
[attach-enode] #12990 0
[end-of-instance]
[mk-app] #12989 or #3429 #2900 #4670
[mk-app] #12990 or #12981 #4670
[inst-discovered] theory-solving 0x0 basic# ; #12990
[mk-app] #12991 = #12990 #12989
[instance] 0x0 #12991
[attach-enode] #12991 0
[end-of-instance]
[mk-quant] #12990 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #4672 #12989
[attach-var-names] #12990 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2900
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #4661
[mk-app] #12991 = #4661 #12982
[instance] 0x0 #12991
[attach-enode] #12991 0
[end-of-instance]
[mk-app] #12991 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #12991
[mk-app] #12992 = #12991 #12981
[instance] 0x0 #12992
[attach-enode] #12992 0
[end-of-instance]
[mk-app] #12991 or #3429 #2900 #4676
[mk-app] #12992 or #12981 #4676
[inst-discovered] theory-solving 0x0 basic# ; #12992
[mk-app] #12993 = #12992 #12991
[instance] 0x0 #12993
[attach-enode] #12993 0
[end-of-instance]
[mk-quant] #12992 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #4678 #12991
[attach-var-names] #12992 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2900
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #4661
[mk-app] #12993 = #4661 #12982
[instance] 0x0 #12993
[attach-enode] #12993 0
[end-of-instance]
[mk-app] #12993 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #12993
[mk-app] #12994 = #12993 #12981
[instance] 0x0 #12994
[attach-enode] #12994 0
[end-of-instance]
[mk-app] #12993 or #3429 #2900 #4682
[mk-app] #12994 or #12981 #4682
[inst-discovered] theory-solving 0x0 basic# ; #12994
[mk-app] #12995 = #12994 #12993
[instance] 0x0 #12995
[attach-enode] #12995 0
[end-of-instance]
[mk-quant] #12994 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #4684 #12993
[attach-var-names] #12994 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #12938
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #12995 = #3386 #12982
[instance] 0x0 #12995
[attach-enode] #12995 0
[end-of-instance]
[mk-app] #12995 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #12995
[mk-app] #12996 = #12995 #12981
[instance] 0x0 #12996
[attach-enode] #12996 0
[end-of-instance]
[mk-app] #12995 or #5347 #12938 #4690
[mk-app] #12996 or #12981 #4690
[inst-discovered] theory-solving 0x0 basic# ; #12996
[mk-app] #12997 = #12996 #12995
[instance] 0x0 #12997
[attach-enode] #12997 0
[end-of-instance]
[mk-quant] #12996 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_true_definition 4 #4692 #12995
[attach-var-names] #12996 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #12938
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #12997 = #3386 #12982
[instance] 0x0 #12997
[attach-enode] #12997 0
[end-of-instance]
[mk-app] #12997 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #12997
[mk-app] #12998 = #12997 #12981
[instance] 0x0 #12998
[attach-enode] #12998 0
[end-of-instance]
[mk-app] #12997 or #5347 #12938 #4697
[mk-app] #12998 or #12981 #4697
[inst-discovered] theory-solving 0x0 basic# ; #12998
[mk-app] #12999 = #12998 #12997
[instance] 0x0 #12999
[attach-enode] #12999 0
[end-of-instance]
[mk-quant] #12998 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_false_definition 4 #4699 #12997
[attach-var-names] #12998 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #12938
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #12999 = #3386 #12982
[instance] 0x0 #12999
[attach-enode] #12999 0
[end-of-instance]
[mk-app] #12999 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #12999
[mk-app] #13000 = #12999 #12981
[instance] 0x0 #13000
[attach-enode] #13000 0
[end-of-instance]
[mk-app] #12999 or #5347 #12938 #4704
[mk-app] #13000 or #12981 #4704
[inst-discovered] theory-solving 0x0 basic# ; #13000
[mk-app] #13001 = #13000 #12999
[instance] 0x0 #13001
[attach-enode] #13001 0
[end-of-instance]
[mk-quant] #13000 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_true_definition 4 #4706 #12999
[attach-var-names] #13000 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #12938
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #13001 = #3386 #12982
[instance] 0x0 #13001
[attach-enode] #13001 0
[end-of-instance]
[mk-app] #13001 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13001
[mk-app] #13002 = #13001 #12981
[instance] 0x0 #13002
[attach-enode] #13002 0
[end-of-instance]
[mk-app] #13001 or #5347 #12938 #4712
[mk-app] #13002 or #12981 #4712
[inst-discovered] theory-solving 0x0 basic# ; #13002
[mk-app] #13003 = #13002 #13001
[instance] 0x0 #13003
[attach-enode] #13003 0
[end-of-instance]
[mk-quant] #13002 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_false_definition 4 #4714 #13001
[attach-var-names] #13002 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13003 = #3502 #12982
[instance] 0x0 #13003
[attach-enode] #13003 0
[end-of-instance]
[mk-app] #13003 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13003
[mk-app] #13004 = #13003 #12981
[instance] 0x0 #13004
[attach-enode] #13004 0
[end-of-instance]
[mk-app] #13003 or #5347 #3429 #12939 #4752
[mk-app] #13004 or #12981 #4752
[inst-discovered] theory-solving 0x0 basic# ; #13004
[mk-app] #13005 = #13004 #13003
[instance] 0x0 #13005
[attach-enode] #13005 0
[end-of-instance]
[mk-quant] #13004 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #4754 #13003
[attach-var-names] #13004 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13005 = #3502 #12982
[instance] 0x0 #13005
[attach-enode] #13005 0
[end-of-instance]
[mk-app] #13005 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13005
[mk-app] #13006 = #13005 #12981
[instance] 0x0 #13006
[attach-enode] #13006 0
[end-of-instance]
[mk-app] #13005 or #5347 #3429 #12939 #4759
[mk-app] #13006 or #12981 #4759
[inst-discovered] theory-solving 0x0 basic# ; #13006
[mk-app] #13007 = #13006 #13005
[instance] 0x0 #13007
[attach-enode] #13007 0
[end-of-instance]
[mk-quant] #13006 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #4761 #13005
[attach-var-names] #13006 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13007 = #3502 #12982
[instance] 0x0 #13007
[attach-enode] #13007 0
[end-of-instance]
[mk-app] #13007 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13007
[mk-app] #13008 = #13007 #12981
[instance] 0x0 #13008
[attach-enode] #13008 0
[end-of-instance]
[mk-app] #13007 or #5347 #3429 #12939 #4766
[mk-app] #13008 or #12981 #4766
[inst-discovered] theory-solving 0x0 basic# ; #13008
[mk-app] #13009 = #13008 #13007
[instance] 0x0 #13009
[attach-enode] #13009 0
[end-of-instance]
[mk-quant] #13008 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #4768 #13007
[attach-var-names] #13008 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13009 = #3502 #12982
[instance] 0x0 #13009
[attach-enode] #13009 0
[end-of-instance]
[mk-app] #13009 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13009
[mk-app] #13010 = #13009 #12981
[instance] 0x0 #13010
[attach-enode] #13010 0
[end-of-instance]
[mk-app] #13009 or #5347 #3429 #12939 #4773
[mk-app] #13010 or #12981 #4773
[inst-discovered] theory-solving 0x0 basic# ; #13010
[mk-app] #13011 = #13010 #13009
[instance] 0x0 #13011
[attach-enode] #13011 0
[end-of-instance]
[mk-quant] #13010 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #4775 #13009
[attach-var-names] #13010 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13011 = #3502 #12982
[instance] 0x0 #13011
[attach-enode] #13011 0
[end-of-instance]
[mk-app] #13011 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13011
[mk-app] #13012 = #13011 #12981
[instance] 0x0 #13012
[attach-enode] #13012 0
[end-of-instance]
[mk-app] #13011 or #5347 #3429 #12939 #4780
[mk-app] #13012 or #12981 #4780
[inst-discovered] theory-solving 0x0 basic# ; #13012
[mk-app] #13013 = #13012 #13011
[instance] 0x0 #13013
[attach-enode] #13013 0
[end-of-instance]
[mk-quant] #13012 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #4782 #13011
[attach-var-names] #13012 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13013 = #3502 #12982
[instance] 0x0 #13013
[attach-enode] #13013 0
[end-of-instance]
[mk-app] #13013 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13013
[mk-app] #13014 = #13013 #12981
[instance] 0x0 #13014
[attach-enode] #13014 0
[end-of-instance]
[mk-app] #13013 or #5347 #3429 #12939 #4787
[mk-app] #13014 or #12981 #4787
[inst-discovered] theory-solving 0x0 basic# ; #13014
[mk-app] #13015 = #13014 #13013
[instance] 0x0 #13015
[attach-enode] #13015 0
[end-of-instance]
[mk-quant] #13014 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #4789 #13013
[attach-var-names] #13014 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13015 = #3502 #12982
[instance] 0x0 #13015
[attach-enode] #13015 0
[end-of-instance]
[mk-app] #13015 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13015
[mk-app] #13016 = #13015 #12981
[instance] 0x0 #13016
[attach-enode] #13016 0
[end-of-instance]
[mk-app] #13015 or #5347 #3429 #12939 #4794
[mk-app] #13016 or #12981 #4794
[inst-discovered] theory-solving 0x0 basic# ; #13016
[mk-app] #13017 = #13016 #13015
[instance] 0x0 #13017
[attach-enode] #13017 0
[end-of-instance]
[mk-quant] #13016 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #4796 #13015
[attach-var-names] #13016 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13017 = #3502 #12982
[instance] 0x0 #13017
[attach-enode] #13017 0
[end-of-instance]
[mk-app] #13017 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13017
[mk-app] #13018 = #13017 #12981
[instance] 0x0 #13018
[attach-enode] #13018 0
[end-of-instance]
[mk-app] #13017 or #5347 #3429 #12939 #4801
[mk-app] #13018 or #12981 #4801
[inst-discovered] theory-solving 0x0 basic# ; #13018
[mk-app] #13019 = #13018 #13017
[instance] 0x0 #13019
[attach-enode] #13019 0
[end-of-instance]
[mk-quant] #13018 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #4803 #13017
[attach-var-names] #13018 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #12938
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #13019 = #3386 #12982
[instance] 0x0 #13019
[attach-enode] #13019 0
[end-of-instance]
[mk-app] #13019 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13019
[mk-app] #13020 = #13019 #12981
[instance] 0x0 #13020
[attach-enode] #13020 0
[end-of-instance]
[mk-app] #13019 or #5347 #12938 #4809
[mk-app] #13020 or #12981 #4809
[inst-discovered] theory-solving 0x0 basic# ; #13020
[mk-app] #13021 = #13020 #13019
[instance] 0x0 #13021
[attach-enode] #13021 0
[end-of-instance]
[mk-quant] #13020 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_true_definition 4 #4811 #13019
[attach-var-names] #13020 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #12938
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #13021 = #3386 #12982
[instance] 0x0 #13021
[attach-enode] #13021 0
[end-of-instance]
[mk-app] #13021 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13021
[mk-app] #13022 = #13021 #12981
[instance] 0x0 #13022
[attach-enode] #13022 0
[end-of-instance]
[mk-app] #13021 or #5347 #12938 #4817
[mk-app] #13022 or #12981 #4817
[inst-discovered] theory-solving 0x0 basic# ; #13022
[mk-app] #13023 = #13022 #13021
[instance] 0x0 #13023
[attach-enode] #13023 0
[end-of-instance]
[mk-quant] #13022 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_false_definition 4 #4819 #13021
[attach-var-names] #13022 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #12938
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #13023 = #3386 #12982
[instance] 0x0 #13023
[attach-enode] #13023 0
[end-of-instance]
[mk-app] #13023 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13023
[mk-app] #13024 = #13023 #12981
[instance] 0x0 #13024
[attach-enode] #13024 0
[end-of-instance]
[mk-app] #13023 or #5347 #12938 #4824
[mk-app] #13024 or #12981 #4824
[inst-discovered] theory-solving 0x0 basic# ; #13024
[mk-app] #13025 = #13024 #13023
[instance] 0x0 #13025
[attach-enode] #13025 0
[end-of-instance]
[mk-quant] #13024 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_true_definition 4 #4826 #13023
[attach-var-names] #13024 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #12938
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #13025 = #3386 #12982
[instance] 0x0 #13025
[attach-enode] #13025 0
[end-of-instance]
[mk-app] #13025 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13025
[mk-app] #13026 = #13025 #12981
[instance] 0x0 #13026
[attach-enode] #13026 0
[end-of-instance]
[mk-app] #13025 or #5347 #12938 #4832
[mk-app] #13026 or #12981 #4832
[inst-discovered] theory-solving 0x0 basic# ; #13026
[mk-app] #13027 = #13026 #13025
[instance] 0x0 #13027
[attach-enode] #13027 0
[end-of-instance]
[mk-quant] #13026 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_false_definition 4 #4834 #13025
[attach-var-names] #13026 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13027 = #3502 #12982
[instance] 0x0 #13027
[attach-enode] #13027 0
[end-of-instance]
[mk-app] #13027 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13027
[mk-app] #13028 = #13027 #12981
[instance] 0x0 #13028
[attach-enode] #13028 0
[end-of-instance]
[mk-app] #13027 or #5347 #3429 #12939 #4870
[mk-app] #13028 or #12981 #4870
[inst-discovered] theory-solving 0x0 basic# ; #13028
[mk-app] #13029 = #13028 #13027
[instance] 0x0 #13029
[attach-enode] #13029 0
[end-of-instance]
[mk-quant] #13028 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #4872 #13027
[attach-var-names] #13028 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13029 = #3502 #12982
[instance] 0x0 #13029
[attach-enode] #13029 0
[end-of-instance]
[mk-app] #13029 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13029
[mk-app] #13030 = #13029 #12981
[instance] 0x0 #13030
[attach-enode] #13030 0
[end-of-instance]
[mk-app] #13029 or #5347 #3429 #12939 #4877
[mk-app] #13030 or #12981 #4877
[inst-discovered] theory-solving 0x0 basic# ; #13030
[mk-app] #13031 = #13030 #13029
[instance] 0x0 #13031
[attach-enode] #13031 0
[end-of-instance]
[mk-quant] #13030 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #4879 #13029
[attach-var-names] #13030 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13031 = #3502 #12982
[instance] 0x0 #13031
[attach-enode] #13031 0
[end-of-instance]
[mk-app] #13031 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13031
[mk-app] #13032 = #13031 #12981
[instance] 0x0 #13032
[attach-enode] #13032 0
[end-of-instance]
[mk-app] #13031 or #5347 #3429 #12939 #4884
[mk-app] #13032 or #12981 #4884
[inst-discovered] theory-solving 0x0 basic# ; #13032
[mk-app] #13033 = #13032 #13031
[instance] 0x0 #13033
[attach-enode] #13033 0
[end-of-instance]
[mk-quant] #13032 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #4886 #13031
[attach-var-names] #13032 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13033 = #3502 #12982
[instance] 0x0 #13033
[attach-enode] #13033 0
[end-of-instance]
[mk-app] #13033 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13033
[mk-app] #13034 = #13033 #12981
[instance] 0x0 #13034
[attach-enode] #13034 0
[end-of-instance]
[mk-app] #13033 or #5347 #3429 #12939 #4891
[mk-app] #13034 or #12981 #4891
[inst-discovered] theory-solving 0x0 basic# ; #13034
[mk-app] #13035 = #13034 #13033
[instance] 0x0 #13035
[attach-enode] #13035 0
[end-of-instance]
[mk-quant] #13034 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #4893 #13033
[attach-var-names] #13034 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13035 = #3502 #12982
[instance] 0x0 #13035
[attach-enode] #13035 0
[end-of-instance]
[mk-app] #13035 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13035
[mk-app] #13036 = #13035 #12981
[instance] 0x0 #13036
[attach-enode] #13036 0
[end-of-instance]
[mk-app] #13035 or #5347 #3429 #12939 #4899
[mk-app] #13036 or #12981 #4899
[inst-discovered] theory-solving 0x0 basic# ; #13036
[mk-app] #13037 = #13036 #13035
[instance] 0x0 #13037
[attach-enode] #13037 0
[end-of-instance]
[mk-quant] #13036 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #4901 #13035
[attach-var-names] #13036 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13037 = #3502 #12982
[instance] 0x0 #13037
[attach-enode] #13037 0
[end-of-instance]
[mk-app] #13037 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13037
[mk-app] #13038 = #13037 #12981
[instance] 0x0 #13038
[attach-enode] #13038 0
[end-of-instance]
[mk-app] #13037 or #5347 #3429 #12939 #4906
[mk-app] #13038 or #12981 #4906
[inst-discovered] theory-solving 0x0 basic# ; #13038
[mk-app] #13039 = #13038 #13037
[instance] 0x0 #13039
[attach-enode] #13039 0
[end-of-instance]
[mk-quant] #13038 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #4908 #13037
[attach-var-names] #13038 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13039 = #3502 #12982
[instance] 0x0 #13039
[attach-enode] #13039 0
[end-of-instance]
[mk-app] #13039 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13039
[mk-app] #13040 = #13039 #12981
[instance] 0x0 #13040
[attach-enode] #13040 0
[end-of-instance]
[mk-app] #13039 or #5347 #3429 #12939 #4913
[mk-app] #13040 or #12981 #4913
[inst-discovered] theory-solving 0x0 basic# ; #13040
[mk-app] #13041 = #13040 #13039
[instance] 0x0 #13041
[attach-enode] #13041 0
[end-of-instance]
[mk-quant] #13040 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #4915 #13039
[attach-var-names] #13040 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13041 = #3502 #12982
[instance] 0x0 #13041
[attach-enode] #13041 0
[end-of-instance]
[mk-app] #13041 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13041
[mk-app] #13042 = #13041 #12981
[instance] 0x0 #13042
[attach-enode] #13042 0
[end-of-instance]
[mk-app] #13041 or #5347 #3429 #12939 #4920
[mk-app] #13042 or #12981 #4920
[inst-discovered] theory-solving 0x0 basic# ; #13042
[mk-app] #13043 = #13042 #13041
[instance] 0x0 #13043
[attach-enode] #13043 0
[end-of-instance]
[mk-quant] #13042 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #4922 #13041
[attach-var-names] #13042 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13043 = #3502 #12982
[instance] 0x0 #13043
[attach-enode] #13043 0
[end-of-instance]
[mk-app] #13043 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13043
[mk-app] #13044 = #13043 #12981
[instance] 0x0 #13044
[attach-enode] #13044 0
[end-of-instance]
[mk-app] #13043 or #5347 #3429 #12939 #4927
[mk-app] #13044 or #12981 #4927
[inst-discovered] theory-solving 0x0 basic# ; #13044
[mk-app] #13045 = #13044 #13043
[instance] 0x0 #13045
[attach-enode] #13045 0
[end-of-instance]
[mk-quant] #13044 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #4929 #13043
[attach-var-names] #13044 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13045 = #3502 #12982
[instance] 0x0 #13045
[attach-enode] #13045 0
[end-of-instance]
[mk-app] #13045 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13045
[mk-app] #13046 = #13045 #12981
[instance] 0x0 #13046
[attach-enode] #13046 0
[end-of-instance]
[mk-app] #13045 or #5347 #3429 #12939 #4935
[mk-app] #13046 or #12981 #4935
[inst-discovered] theory-solving 0x0 basic# ; #13046
[mk-app] #13047 = #13046 #13045
[instance] 0x0 #13047
[attach-enode] #13047 0
[end-of-instance]
[mk-quant] #13046 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #4937 #13045
[attach-var-names] #13046 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13047 = #3502 #12982
[instance] 0x0 #13047
[attach-enode] #13047 0
[end-of-instance]
[mk-app] #13047 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13047
[mk-app] #13048 = #13047 #12981
[instance] 0x0 #13048
[attach-enode] #13048 0
[end-of-instance]
[mk-app] #13047 or #5347 #3429 #12939 #4942
[mk-app] #13048 or #12981 #4942
[inst-discovered] theory-solving 0x0 basic# ; #13048
[mk-app] #13049 = #13048 #13047
[instance] 0x0 #13049
[attach-enode] #13049 0
[end-of-instance]
[mk-quant] #13048 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #4944 #13047
[attach-var-names] #13048 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13049 = #3502 #12982
[instance] 0x0 #13049
[attach-enode] #13049 0
[end-of-instance]
[mk-app] #13049 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13049
[mk-app] #13050 = #13049 #12981
[instance] 0x0 #13050
[attach-enode] #13050 0
[end-of-instance]
[mk-app] #13049 or #5347 #3429 #12939 #4949
[mk-app] #13050 or #12981 #4949
[inst-discovered] theory-solving 0x0 basic# ; #13050
[mk-app] #13051 = #13050 #13049
[instance] 0x0 #13051
[attach-enode] #13051 0
[end-of-instance]
[mk-quant] #13050 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #4951 #13049
[attach-var-names] #13050 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13051 = #3502 #12982
[instance] 0x0 #13051
[attach-enode] #13051 0
[end-of-instance]
[mk-app] #13051 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13051
[mk-app] #13052 = #13051 #12981
[instance] 0x0 #13052
[attach-enode] #13052 0
[end-of-instance]
[mk-app] #13051 or #5347 #3429 #12939 #4956
[mk-app] #13052 or #12981 #4956
[inst-discovered] theory-solving 0x0 basic# ; #13052
[mk-app] #13053 = #13052 #13051
[instance] 0x0 #13053
[attach-enode] #13053 0
[end-of-instance]
[mk-quant] #13052 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #4958 #13051
[attach-var-names] #13052 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13053 = #3502 #12982
[instance] 0x0 #13053
[attach-enode] #13053 0
[end-of-instance]
[mk-app] #13053 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13053
[mk-app] #13054 = #13053 #12981
[instance] 0x0 #13054
[attach-enode] #13054 0
[end-of-instance]
[mk-app] #13053 or #5347 #3429 #12939 #4963
[mk-app] #13054 or #12981 #4963
[inst-discovered] theory-solving 0x0 basic# ; #13054
[mk-app] #13055 = #13054 #13053
[instance] 0x0 #13055
[attach-enode] #13055 0
[end-of-instance]
[mk-quant] #13054 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #4965 #13053
[attach-var-names] #13054 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13055 = #3502 #12982
[instance] 0x0 #13055
[attach-enode] #13055 0
[end-of-instance]
[mk-app] #13055 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13055
[mk-app] #13056 = #13055 #12981
[instance] 0x0 #13056
[attach-enode] #13056 0
[end-of-instance]
[mk-app] #13055 or #5347 #3429 #12939 #4970
[mk-app] #13056 or #12981 #4970
[inst-discovered] theory-solving 0x0 basic# ; #13056
[mk-app] #13057 = #13056 #13055
[instance] 0x0 #13057
[attach-enode] #13057 0
[end-of-instance]
[mk-quant] #13056 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #4972 #13055
[attach-var-names] #13056 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #5347 #3429 #12939
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13057 = #3502 #12982
[instance] 0x0 #13057
[attach-enode] #13057 0
[end-of-instance]
[mk-app] #13057 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13057
[mk-app] #13058 = #13057 #12981
[instance] 0x0 #13058
[attach-enode] #13058 0
[end-of-instance]
[mk-app] #13057 or #5347 #3429 #12939 #4977
[mk-app] #13058 or #12981 #4977
[inst-discovered] theory-solving 0x0 basic# ; #13058
[mk-app] #13059 = #13058 #13057
[instance] 0x0 #13059
[attach-enode] #13059 0
[end-of-instance]
[mk-quant] #13058 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #4979 #13057
[attach-var-names] #13058 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2907
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #4983
[mk-app] #13059 = #4983 #12982
[instance] 0x0 #13059
[attach-enode] #13059 0
[end-of-instance]
[mk-app] #13059 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13059
[mk-app] #13060 = #13059 #12981
[instance] 0x0 #13060
[attach-enode] #13060 0
[end-of-instance]
[mk-app] #13059 or #3429 #2907 #4986
[mk-app] #13060 or #12981 #4986
[inst-discovered] theory-solving 0x0 basic# ; #13060
[mk-app] #13061 = #13060 #13059
[instance] 0x0 #13061
[attach-enode] #13061 0
[end-of-instance]
[mk-quant] #13060 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__adapters__rev__impl&__1_assoc_type_impl_true_definition 2 #4988 #13059
[attach-var-names] #13060 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2907
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #4983
[mk-app] #13061 = #4983 #12982
[instance] 0x0 #13061
[attach-enode] #13061 0
[end-of-instance]
[mk-app] #13061 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13061
[mk-app] #13062 = #13061 #12981
[instance] 0x0 #13062
[attach-enode] #13062 0
[end-of-instance]
[mk-app] #13061 or #3429 #2907 #4994
[mk-app] #13062 or #12981 #4994
[inst-discovered] theory-solving 0x0 basic# ; #13062
[mk-app] #13063 = #13062 #13061
[instance] 0x0 #13063
[attach-enode] #13063 0
[end-of-instance]
[mk-quant] #13062 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__adapters__rev__impl&__1_assoc_type_impl_false_definition 2 #4996 #13061
[attach-var-names] #13062 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2937
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13063 = #5000 #12982
[instance] 0x0 #13063
[attach-enode] #13063 0
[end-of-instance]
[mk-app] #13063 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13063
[mk-app] #13064 = #13063 #12981
[instance] 0x0 #13064
[attach-enode] #13064 0
[end-of-instance]
[mk-app] #13063 or #3429 #2937 #5003
[mk-app] #13064 or #12981 #5003
[inst-discovered] theory-solving 0x0 basic# ; #13064
[mk-app] #13065 = #13064 #13063
[instance] 0x0 #13065
[attach-enode] #13065 0
[end-of-instance]
[mk-quant] #13064 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_true_definition 2 #5005 #13063
[attach-var-names] #13064 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2937
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13065 = #5000 #12982
[instance] 0x0 #13065
[attach-enode] #13065 0
[end-of-instance]
[mk-app] #13065 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13065
[mk-app] #13066 = #13065 #12981
[instance] 0x0 #13066
[attach-enode] #13066 0
[end-of-instance]
[mk-app] #13065 or #3429 #2937 #5011
[mk-app] #13066 or #12981 #5011
[inst-discovered] theory-solving 0x0 basic# ; #13066
[mk-app] #13067 = #13066 #13065
[instance] 0x0 #13067
[attach-enode] #13067 0
[end-of-instance]
[mk-quant] #13066 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_false_definition 2 #5013 #13065
[attach-var-names] #13066 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2937
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13067 = #5000 #12982
[instance] 0x0 #13067
[attach-enode] #13067 0
[end-of-instance]
[mk-app] #13067 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13067
[mk-app] #13068 = #13067 #12981
[instance] 0x0 #13068
[attach-enode] #13068 0
[end-of-instance]
[mk-app] #13067 or #3429 #2937 #5018
[mk-app] #13068 or #12981 #5018
[inst-discovered] theory-solving 0x0 basic# ; #13068
[mk-app] #13069 = #13068 #13067
[instance] 0x0 #13069
[attach-enode] #13069 0
[end-of-instance]
[mk-quant] #13068 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__15_assoc_type_impl_true_definition 2 #5020 #13067
[attach-var-names] #13068 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12981 or #3429 #2937
[mk-app] #12982 not #12981
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13069 = #5000 #12982
[instance] 0x0 #13069
[attach-enode] #13069 0
[end-of-instance]
[mk-app] #13069 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #13069
[mk-app] #13070 = #13069 #12981
[instance] 0x0 #13070
[attach-enode] #13070 0
[end-of-instance]
[mk-app] #13069 or #3429 #2937 #5025
[mk-app] #13070 or #12981 #5025
[inst-discovered] theory-solving 0x0 basic# ; #13070
[mk-app] #13071 = #13070 #13069
[instance] 0x0 #13071
[attach-enode] #13071 0
[end-of-instance]
[mk-quant] #13070 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__15_assoc_type_impl_false_definition 2 #5027 #13069
[attach-var-names] #13070 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12981 not #5073
[mk-app] #12982 or #3429 #12981 #12939
[mk-app] #13071 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #5074
[mk-app] #13072 = #5074 #13071
[instance] 0x0 #13072
[attach-enode] #13072 0
[end-of-instance]
[mk-app] #13072 not #13071
[inst-discovered] theory-solving 0x0 basic# ; #13072
[mk-app] #13073 = #13072 #12982
[instance] 0x0 #13073
[attach-enode] #13073 0
[end-of-instance]
[mk-app] #13072 or #3429 #12981 #12939 #5077
[mk-app] #13073 or #12982 #5077
[inst-discovered] theory-solving 0x0 basic# ; #13073
[mk-app] #13074 = #13073 #13072
[instance] 0x0 #13074
[attach-enode] #13074 0
[end-of-instance]
[mk-quant] #13073 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_true_definition 4 #5079 #13072
[attach-var-names] #13073 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12982 or #3429 #12981 #12939
[mk-app] #13071 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #5074
[mk-app] #13074 = #5074 #13071
[instance] 0x0 #13074
[attach-enode] #13074 0
[end-of-instance]
[mk-app] #13074 not #13071
[inst-discovered] theory-solving 0x0 basic# ; #13074
[mk-app] #13075 = #13074 #12982
[instance] 0x0 #13075
[attach-enode] #13075 0
[end-of-instance]
[mk-app] #13074 or #3429 #12981 #12939 #5086
[mk-app] #13075 or #12982 #5086
[inst-discovered] theory-solving 0x0 basic# ; #13075
[mk-app] #13076 = #13075 #13074
[instance] 0x0 #13076
[attach-enode] #13076 0
[end-of-instance]
[mk-quant] #13075 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_false_definition 4 #5088 #13074
[attach-var-names] #13075 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12982 or #5347 #3429 #12939
[mk-app] #13071 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13076 = #3502 #13071
[instance] 0x0 #13076
[attach-enode] #13076 0
[end-of-instance]
[mk-app] #13076 not #13071
[inst-discovered] theory-solving 0x0 basic# ; #13076
[mk-app] #13077 = #13076 #12982
[instance] 0x0 #13077
[attach-enode] #13077 0
[end-of-instance]
[mk-app] #13076 or #5347 #3429 #12939 #5093
[mk-app] #13077 or #12982 #5093
[inst-discovered] theory-solving 0x0 basic# ; #13077
[mk-app] #13078 = #13077 #13076
[instance] 0x0 #13078
[attach-enode] #13078 0
[end-of-instance]
[mk-quant] #13077 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_true_definition 4 #5095 #13076
[attach-var-names] #13077 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12982 or #5347 #3429 #12939
[mk-app] #13071 not #12982
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13078 = #3502 #13071
[instance] 0x0 #13078
[attach-enode] #13078 0
[end-of-instance]
[mk-app] #13078 not #13071
[inst-discovered] theory-solving 0x0 basic# ; #13078
[mk-app] #13079 = #13078 #12982
[instance] 0x0 #13079
[attach-enode] #13079 0
[end-of-instance]
[mk-app] #13078 or #5347 #3429 #12939 #5100
[mk-app] #13079 or #12982 #5100
[inst-discovered] theory-solving 0x0 basic# ; #13079
[mk-app] #13080 = #13079 #13078
[instance] 0x0 #13080
[attach-enode] #13080 0
[end-of-instance]
[mk-quant] #13079 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_false_definition 4 #5102 #13078
[attach-var-names] #13079 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #2855
[mk-app] #12982 = #2855 #12708
[instance] 0x0 #12982
[attach-enode] #12982 0
[end-of-instance]
[mk-app] #12982 not #12708
[inst-discovered] theory-solving 0x0 basic# ; #12982
[mk-app] #13071 = #12982 #12707
[instance] 0x0 #13071
[attach-enode] #13071 0
[end-of-instance]
[mk-app] #12982 or #12706 #2844 #5109
[mk-app] #13071 or #12707 #5109
[inst-discovered] theory-solving 0x0 basic# ; #13071
[mk-app] #13080 = #13071 #12982
[instance] 0x0 #13080
[attach-enode] #13080 0
[end-of-instance]
[mk-quant] #13071 internal_proj____core!ops.function.FnOnce./Output_core__cmp__PartialOrd__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_true_definition 4 #5111 #12982
[attach-var-names] #13071 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #2855
[mk-app] #13080 = #2855 #12708
[instance] 0x0 #13080
[attach-enode] #13080 0
[end-of-instance]
[mk-app] #13080 not #12708
[inst-discovered] theory-solving 0x0 basic# ; #13080
[mk-app] #13081 = #13080 #12707
[instance] 0x0 #13081
[attach-enode] #13081 0
[end-of-instance]
[mk-app] #13080 or #12706 #2844 #5118
[mk-app] #13081 or #12707 #5118
[inst-discovered] theory-solving 0x0 basic# ; #13081
[mk-app] #13082 = #13081 #13080
[instance] 0x0 #13082
[attach-enode] #13082 0
[end-of-instance]
[mk-quant] #13081 internal_proj__core!ops.function.FnOnce./Output_core__cmp__PartialOrd__partial_cmp__impl_fndef&__FnOnce_assoc_type_impl_false_definition 4 #5120 #13080
[attach-var-names] #13081 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13082 or #3429 #2937
[mk-app] #13083 not #13082
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13084 = #5000 #13083
[instance] 0x0 #13084
[attach-enode] #13084 0
[end-of-instance]
[mk-app] #13084 not #13083
[inst-discovered] theory-solving 0x0 basic# ; #13084
[mk-app] #13085 = #13084 #13082
[instance] 0x0 #13085
[attach-enode] #13085 0
[end-of-instance]
[mk-app] #13084 or #3429 #2937 #5164
[mk-app] #13085 or #13082 #5164
[inst-discovered] theory-solving 0x0 basic# ; #13085
[mk-app] #13086 = #13085 #13084
[instance] 0x0 #13086
[attach-enode] #13086 0
[end-of-instance]
[mk-quant] #13085 internal_proj____core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #5166 #13084
[attach-var-names] #13085 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13082 or #3429 #2937
[mk-app] #13083 not #13082
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13086 = #5000 #13083
[instance] 0x0 #13086
[attach-enode] #13086 0
[end-of-instance]
[mk-app] #13086 not #13083
[inst-discovered] theory-solving 0x0 basic# ; #13086
[mk-app] #13087 = #13086 #13082
[instance] 0x0 #13087
[attach-enode] #13087 0
[end-of-instance]
[mk-app] #13086 or #3429 #2937 #5171
[mk-app] #13087 or #13082 #5171
[inst-discovered] theory-solving 0x0 basic# ; #13087
[mk-app] #13088 = #13087 #13086
[instance] 0x0 #13088
[attach-enode] #13088 0
[end-of-instance]
[mk-quant] #13087 internal_proj__core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #5173 #13086
[attach-var-names] #13087 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13082 not #516
[mk-app] #13083 or #13082 #5199
[mk-app] #13088 not #13083
[inst-discovered] theory-solving 0x0 basic# ; #5203
[mk-app] #13089 = #5203 #13088
[instance] 0x0 #13089
[attach-enode] #13089 0
[end-of-instance]
[mk-app] #13089 or #5204 #13088
[mk-app] #13090 = #5188 #13089
[mk-quant] #13091 internal_req__vstd!seq.Seq.index._definition 4 #5195 #13090
[attach-var-names] #13091 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13092 not #5197
[mk-app] #13093 or #13092 #192
[mk-app] #13094 not #13093
[inst-discovered] theory-solving 0x0 basic# ; #5198
[mk-app] #13095 = #5198 #13094
[instance] 0x0 #13095
[attach-enode] #13095 0
[end-of-instance]
[mk-app] #13095 not #13094
[inst-discovered] theory-solving 0x0 basic# ; #13095
[mk-app] #13096 = #13095 #13093
[instance] 0x0 #13096
[attach-enode] #13096 0
[end-of-instance]
[mk-app] #13095 or #13092 #192 #5209
[mk-app] #13096 or #13093 #5209
[inst-discovered] theory-solving 0x0 basic# ; #13096
[mk-app] #13097 = #13096 #13095
[instance] 0x0 #13097
[attach-enode] #13097 0
[end-of-instance]
[mk-quant] #13096 internal_vstd!seq.Seq.index.?_pre_post_definition 4 #5211 #13095
[attach-var-names] #13096 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #5203
[mk-app] #13093 = #5203 #13088
[instance] 0x0 #13093
[attach-enode] #13093 0
[end-of-instance]
[mk-app] #13093 or #5224 #13088
[mk-app] #13094 = #5216 #13093
[mk-quant] #13097 internal_req__vstd!seq.impl&__2.spec_index._definition 4 #5220 #13094
[attach-var-names] #13097 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13098 or #13092 #192
[mk-app] #13099 not #13098
[inst-discovered] theory-solving 0x0 basic# ; #5198
[mk-app] #13100 = #5198 #13099
[instance] 0x0 #13100
[attach-enode] #13100 0
[end-of-instance]
[mk-app] #13100 not #13099
[inst-discovered] theory-solving 0x0 basic# ; #13100
[mk-app] #13101 = #13100 #13098
[instance] 0x0 #13101
[attach-enode] #13101 0
[end-of-instance]
[mk-app] #13100 or #13092 #192 #5235
[mk-app] #13101 or #13098 #5235
[inst-discovered] theory-solving 0x0 basic# ; #13101
[mk-app] #13102 = #13101 #13100
[instance] 0x0 #13102
[attach-enode] #13102 0
[end-of-instance]
[mk-quant] #13101 internal_vstd!seq.impl&__2.spec_index.?_pre_post_definition 4 #5230 #13100
[attach-var-names] #13101 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13098 or #13092 #192
[mk-app] #13099 not #13098
[inst-discovered] theory-solving 0x0 basic# ; #5198
[mk-app] #13102 = #5198 #13099
[instance] 0x0 #13102
[attach-enode] #13102 0
[end-of-instance]
[mk-app] #13102 not #13099
[inst-discovered] theory-solving 0x0 basic# ; #13102
[mk-app] #13103 = #13102 #13098
[instance] 0x0 #13103
[attach-enode] #13103 0
[end-of-instance]
[mk-app] #13102 or #5347 #13082 #5199
[mk-app] #13103 not #13102
[inst-discovered] theory-solving 0x0 basic# ; #5251
[mk-app] #13104 = #5251 #13103
[instance] 0x0 #13104
[attach-enode] #13104 0
[end-of-instance]
[mk-app] #13104 not #13103
[inst-discovered] theory-solving 0x0 basic# ; #13104
[mk-app] #13105 = #13104 #13102
[instance] 0x0 #13105
[attach-enode] #13105 0
[end-of-instance]
[mk-app] #13103 or #13092 #192 #5347 #13082 #5199 #5243
[mk-app] #13104 or #13098 #13102 #5243
[inst-discovered] theory-solving 0x0 basic# ; #13104
[mk-app] #13105 = #13104 #13103
[instance] 0x0 #13105
[attach-enode] #13105 0
[end-of-instance]
[mk-quant] #13102 user_vstd__seq__lemma_seq_index_decreases_0 4 #5246 #13103
[attach-var-names] #13102 (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13098 or #5249 #13102
[mk-app] #13099 not #5271
[mk-app] #13104 or #12341 #10955 #13099
[mk-app] #13105 not #13104
[inst-discovered] theory-solving 0x0 basic# ; #5272
[mk-app] #13106 = #5272 #13105
[instance] 0x0 #13106
[attach-enode] #13106 0
[end-of-instance]
[mk-app] #13106 or #5273 #13105
[mk-app] #13107 = #5255 #13106
[mk-quant] #13108 internal_req__vstd!seq.Seq.subrange._definition 5 #5264 #13107
[attach-var-names] #13108 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13109 not #5278
[mk-app] #13110 not #5279
[mk-app] #13111 or #13109 #13110 #192
[mk-app] #13112 not #13111
[inst-discovered] theory-solving 0x0 basic# ; #5280
[mk-app] #13113 = #5280 #13112
[instance] 0x0 #13113
[attach-enode] #13113 0
[end-of-instance]
[mk-app] #13113 not #13112
[inst-discovered] theory-solving 0x0 basic# ; #13113
[mk-app] #13114 = #13113 #13111
[instance] 0x0 #13114
[attach-enode] #13114 0
[end-of-instance]
[mk-app] #13113 or #13109 #13110 #192 #5282
[mk-app] #13114 or #13111 #5282
[inst-discovered] theory-solving 0x0 basic# ; #13114
[mk-app] #13115 = #13114 #13113
[instance] 0x0 #13115
[attach-enode] #13115 0
[end-of-instance]
[mk-quant] #13114 internal_vstd!seq.Seq.subrange.?_pre_post_definition 5 #5284 #13113
[attach-var-names] #13114 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13111 or #13109 #13110 #192
[mk-app] #13112 not #13111
[inst-discovered] theory-solving 0x0 basic# ; #5280
[mk-app] #13115 = #5280 #13112
[instance] 0x0 #13115
[attach-enode] #13115 0
[end-of-instance]
[mk-app] #13115 not #13112
[inst-discovered] theory-solving 0x0 basic# ; #13115
[mk-app] #13116 = #13115 #13111
[instance] 0x0 #13116
[attach-enode] #13116 0
[end-of-instance]
[mk-app] #13115 or #5471 #12341 #10955 #13099 #5306
[mk-app] #13116 not #13115
[inst-discovered] theory-solving 0x0 basic# ; #5308
[mk-app] #13117 = #5308 #13116
[instance] 0x0 #13117
[attach-enode] #13117 0
[end-of-instance]
[mk-app] #13117 not #13116
[inst-discovered] theory-solving 0x0 basic# ; #13117
[mk-app] #13118 = #13117 #13115
[instance] 0x0 #13118
[attach-enode] #13118 0
[end-of-instance]
[mk-app] #13116 or #13109 #13110 #192 #5471 #12341 #10955 #13099 #5306 #5296
[mk-app] #13117 or #13111 #13115 #5296
[inst-discovered] theory-solving 0x0 basic# ; #13117
[mk-app] #13118 = #13117 #13116
[instance] 0x0 #13118
[attach-enode] #13118 0
[end-of-instance]
[mk-quant] #13115 user_vstd__seq__lemma_seq_subrange_decreases_0 5 #5299 #13116
[attach-var-names] #13115 (|j!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13111 or #5302 #13115
[mk-app] #13112 not #5327
[mk-app] #13117 not #5329
[mk-app] #13118 or #13112 #13117
[mk-app] #13119 not #13118
[inst-discovered] theory-solving 0x0 basic# ; #5330
[mk-app] #13120 = #5330 #13119
[instance] 0x0 #13120
[attach-enode] #13120 0
[end-of-instance]
[mk-app] #13120 not #13119
[inst-discovered] theory-solving 0x0 basic# ; #13120
[mk-app] #13121 = #13120 #13118
[instance] 0x0 #13121
[attach-enode] #13121 0
[end-of-instance]
[mk-app] #13120 or #13112 #13117 #5332
[mk-app] #13121 or #13118 #5332
[inst-discovered] theory-solving 0x0 basic# ; #13121
[mk-app] #13122 = #13121 #13120
[instance] 0x0 #13122
[attach-enode] #13122 0
[end-of-instance]
[mk-quant] #13121 internal_vstd!seq.Seq.new.?_pre_post_definition 4 #5334 #13120
[attach-var-names] #13121 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13118 or #13112 #13117
[mk-app] #13119 not #13118
[inst-discovered] theory-solving 0x0 basic# ; #5330
[mk-app] #13122 = #5330 #13119
[instance] 0x0 #13122
[attach-enode] #13122 0
[end-of-instance]
[mk-app] #13122 not #13119
[inst-discovered] theory-solving 0x0 basic# ; #13122
[mk-app] #13123 = #13122 #13118
[instance] 0x0 #13123
[attach-enode] #13123 0
[end-of-instance]
[mk-app] #13122 or #13112 #13117 #5347 #5341
[mk-app] #13123 or #13118 #5347 #5341
[inst-discovered] theory-solving 0x0 basic# ; #13123
[mk-app] #13124 = #13123 #13122
[instance] 0x0 #13124
[attach-enode] #13124 0
[end-of-instance]
[mk-quant] #13123 user_vstd__seq__lemma_seq_new_len_0 4 #5344 #13122
[attach-var-names] #13123 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13118 or #5350 #13123
[mk-app] #13119 not #5353
[mk-app] #13124 not #5355
[mk-app] #13125 or #13119 #13124 #192
[mk-app] #13126 not #13125
[inst-discovered] theory-solving 0x0 basic# ; #5356
[mk-app] #13127 = #5356 #13126
[instance] 0x0 #13127
[attach-enode] #13127 0
[end-of-instance]
[mk-app] #13127 not #13126
[inst-discovered] theory-solving 0x0 basic# ; #13127
[mk-app] #13128 = #13127 #13125
[instance] 0x0 #13128
[attach-enode] #13128 0
[end-of-instance]
[mk-app] #13127 or #5471 #13082 #5370
[mk-app] #13128 not #13127
[inst-discovered] theory-solving 0x0 basic# ; #5374
[mk-app] #13129 = #5374 #13128
[instance] 0x0 #13129
[attach-enode] #13129 0
[end-of-instance]
[mk-app] #13129 not #13128
[inst-discovered] theory-solving 0x0 basic# ; #13129
[mk-app] #13130 = #13129 #13127
[instance] 0x0 #13130
[attach-enode] #13130 0
[end-of-instance]
[mk-app] #13128 or #13119 #13124 #192 #5471 #13082 #5370 #5362
[mk-app] #13129 or #13125 #13127 #5362
[inst-discovered] theory-solving 0x0 basic# ; #13129
[mk-app] #13130 = #13129 #13128
[instance] 0x0 #13130
[attach-enode] #13130 0
[end-of-instance]
[mk-quant] #13127 user_vstd__seq__lemma_seq_new_index_0 5 #5365 #13128
[attach-var-names] #13127 (|i!| ; |Poly|) (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13125 or #5368 #13127
[mk-app] #13126 or #13092 #10213
[mk-app] #13129 not #13126
[inst-discovered] theory-solving 0x0 basic# ; #5379
[mk-app] #13130 = #5379 #13129
[instance] 0x0 #13130
[attach-enode] #13130 0
[end-of-instance]
[mk-app] #13130 not #13129
[inst-discovered] theory-solving 0x0 basic# ; #13130
[mk-app] #13131 = #13130 #13126
[instance] 0x0 #13131
[attach-enode] #13131 0
[end-of-instance]
[mk-app] #13130 or #13092 #10213 #5381
[mk-app] #13131 or #13126 #5381
[inst-discovered] theory-solving 0x0 basic# ; #13131
[mk-app] #13132 = #13131 #13130
[instance] 0x0 #13132
[attach-enode] #13132 0
[end-of-instance]
[mk-quant] #13131 internal_vstd!seq.Seq.push.?_pre_post_definition 4 #5383 #13130
[attach-var-names] #13131 (|a!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13126 or #13092 #10213
[mk-app] #13129 not #13126
[inst-discovered] theory-solving 0x0 basic# ; #5379
[mk-app] #13132 = #5379 #13129
[instance] 0x0 #13132
[attach-enode] #13132 0
[end-of-instance]
[mk-app] #13132 not #13129
[inst-discovered] theory-solving 0x0 basic# ; #13132
[mk-app] #13133 = #13132 #13126
[instance] 0x0 #13133
[attach-enode] #13133 0
[end-of-instance]
[mk-app] #13132 or #13092 #10213 #5347 #5392
[mk-app] #13133 or #13126 #5347 #5392
[inst-discovered] theory-solving 0x0 basic# ; #13133
[mk-app] #13134 = #13133 #13132
[instance] 0x0 #13134
[attach-enode] #13134 0
[end-of-instance]
[mk-quant] #13133 user_vstd__seq__lemma_seq_push_len_0 4 #5395 #13132
[attach-var-names] #13133 (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13126 or #5400 #13133
[mk-app] #13129 or #13109 #10072 #192
[mk-app] #13134 not #13129
[inst-discovered] theory-solving 0x0 basic# ; #5403
[mk-app] #13135 = #5403 #13134
[instance] 0x0 #13135
[attach-enode] #13135 0
[end-of-instance]
[mk-app] #13135 not #13134
[inst-discovered] theory-solving 0x0 basic# ; #13135
[mk-app] #13136 = #13135 #13129
[instance] 0x0 #13136
[attach-enode] #13136 0
[end-of-instance]
[mk-app] #13135 not #5404
[mk-app] #13136 or #5471 #13135
[mk-app] #13137 not #13136
[inst-discovered] theory-solving 0x0 basic# ; #5405
[mk-app] #13138 = #5405 #13137
[instance] 0x0 #13138
[attach-enode] #13138 0
[end-of-instance]
[mk-app] #13138 not #13137
[inst-discovered] theory-solving 0x0 basic# ; #13138
[mk-app] #13139 = #13138 #13136
[instance] 0x0 #13139
[attach-enode] #13139 0
[end-of-instance]
[mk-app] #13138 or #13109 #10072 #192 #5471 #13135 #5408
[mk-app] #13139 or #13129 #13136 #5408
[inst-discovered] theory-solving 0x0 basic# ; #13139
[mk-app] #13140 = #13139 #13138
[instance] 0x0 #13140
[attach-enode] #13140 0
[end-of-instance]
[mk-quant] #13139 user_vstd__seq__lemma_seq_push_index_same_0 5 #5411 #13138
[attach-var-names] #13139 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13136 or #5418 #13139
[mk-app] #13137 or #13109 #10072 #192
[mk-app] #13129 not #13137
[inst-discovered] theory-solving 0x0 basic# ; #5403
[mk-app] #13134 = #5403 #13129
[instance] 0x0 #13134
[attach-enode] #13134 0
[end-of-instance]
[mk-app] #13134 not #13129
[inst-discovered] theory-solving 0x0 basic# ; #13134
[mk-app] #13140 = #13134 #13137
[instance] 0x0 #13140
[attach-enode] #13140 0
[end-of-instance]
[mk-app] #13134 or #5471 #5431
[mk-app] #13140 not #13134
[inst-discovered] theory-solving 0x0 basic# ; #5433
[mk-app] #13141 = #5433 #13140
[instance] 0x0 #13141
[attach-enode] #13141 0
[end-of-instance]
[mk-app] #13141 not #13140
[inst-discovered] theory-solving 0x0 basic# ; #13141
[mk-app] #13142 = #13141 #13134
[instance] 0x0 #13142
[attach-enode] #13142 0
[end-of-instance]
[mk-app] #13140 or #13109 #10072 #192 #5471 #5431 #5424
[mk-app] #13141 or #13137 #13134 #5424
[inst-discovered] theory-solving 0x0 basic# ; #13141
[mk-app] #13142 = #13141 #13140
[instance] 0x0 #13142
[attach-enode] #13142 0
[end-of-instance]
[mk-quant] #13134 user_vstd__seq__lemma_seq_push_index_different_0 5 #5411 #13140
[attach-var-names] #13134 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13137 or #5429 #13134
[mk-app] #13129 or #12341 #5447
[mk-app] #13141 not #13129
[inst-discovered] theory-solving 0x0 basic# ; #5450
[mk-app] #13142 = #5450 #13141
[instance] 0x0 #13142
[attach-enode] #13142 0
[end-of-instance]
[mk-app] #13142 or #5451 #13141
[mk-app] #13143 = #5437 #13142
[mk-quant] #13144 internal_req__vstd!seq.Seq.update._definition 5 #5443 #13143
[attach-var-names] #13144 (|a!| ; |Poly|) (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13145 or #13109 #13110 #8033
[mk-app] #13146 not #13145
[inst-discovered] theory-solving 0x0 basic# ; #5446
[mk-app] #13147 = #5446 #13146
[instance] 0x0 #13147
[attach-enode] #13147 0
[end-of-instance]
[mk-app] #13147 not #13146
[inst-discovered] theory-solving 0x0 basic# ; #13147
[mk-app] #13148 = #13147 #13145
[instance] 0x0 #13148
[attach-enode] #13148 0
[end-of-instance]
[mk-app] #13147 or #13109 #13110 #8033 #5456
[mk-app] #13148 or #13145 #5456
[inst-discovered] theory-solving 0x0 basic# ; #13148
[mk-app] #13149 = #13148 #13147
[instance] 0x0 #13149
[attach-enode] #13149 0
[end-of-instance]
[mk-quant] #13148 internal_vstd!seq.Seq.update.?_pre_post_definition 5 #5458 #13147
[attach-var-names] #13148 (|a!| ; |Poly|) (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13145 or #13109 #13110 #8033
[mk-app] #13146 not #13145
[inst-discovered] theory-solving 0x0 basic# ; #5446
[mk-app] #13149 = #5446 #13146
[instance] 0x0 #13149
[attach-enode] #13149 0
[end-of-instance]
[mk-app] #13149 not #13146
[inst-discovered] theory-solving 0x0 basic# ; #13149
[mk-app] #13150 = #13149 #13145
[instance] 0x0 #13150
[attach-enode] #13150 0
[end-of-instance]
[mk-app] #13149 or #13109 #13110 #8033 #5471 #5465
[mk-app] #13150 or #13145 #5471 #5465
[inst-discovered] theory-solving 0x0 basic# ; #13150
[mk-app] #13151 = #13150 #13149
[instance] 0x0 #13151
[attach-enode] #13151 0
[end-of-instance]
[mk-quant] #13150 user_vstd__seq__lemma_seq_update_len_0 5 #5468 #13149
[attach-var-names] #13150 (|a!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13145 or #5474 #13150
[mk-app] #13146 or #13109 #13110 #8033
[mk-app] #13151 not #13146
[inst-discovered] theory-solving 0x0 basic# ; #5446
[mk-app] #13152 = #5446 #13151
[instance] 0x0 #13152
[attach-enode] #13152 0
[end-of-instance]
[mk-app] #13152 not #13151
[inst-discovered] theory-solving 0x0 basic# ; #13152
[mk-app] #13153 = #13152 #13146
[instance] 0x0 #13153
[attach-enode] #13153 0
[end-of-instance]
[mk-app] #13152 or #5471 #12341 #5447
[mk-app] #13153 not #13152
[inst-discovered] theory-solving 0x0 basic# ; #5487
[mk-app] #13154 = #5487 #13153
[instance] 0x0 #13154
[attach-enode] #13154 0
[end-of-instance]
[mk-app] #13154 not #13153
[inst-discovered] theory-solving 0x0 basic# ; #13154
[mk-app] #13155 = #13154 #13152
[instance] 0x0 #13155
[attach-enode] #13155 0
[end-of-instance]
[mk-app] #13153 or #13109 #13110 #8033 #5471 #12341 #5447 #5479
[mk-app] #13154 or #13146 #13152 #5479
[inst-discovered] theory-solving 0x0 basic# ; #13154
[mk-app] #13155 = #13154 #13153
[instance] 0x0 #13155
[attach-enode] #13155 0
[end-of-instance]
[mk-quant] #13152 user_vstd__seq__lemma_seq_update_same_0 5 #5482 #13153
[attach-var-names] #13152 (|a!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13146 or #5485 #13152
[mk-app] #13151 not #5493
[mk-app] #13154 not #5494
[mk-app] #13155 not #1574
[mk-app] #13156 or #13151 #13154 #13110 #13155
[mk-app] #13157 not #13156
[inst-discovered] theory-solving 0x0 basic# ; #5495
[mk-app] #13158 = #5495 #13157
[instance] 0x0 #13158
[attach-enode] #13158 0
[end-of-instance]
[mk-app] #13158 not #13157
[inst-discovered] theory-solving 0x0 basic# ; #13158
[mk-app] #13159 = #13158 #13156
[instance] 0x0 #13159
[attach-enode] #13159 0
[end-of-instance]
[mk-app] #13158 or #1589 #5496
[mk-app] #13159 not #13158
[inst-discovered] theory-solving 0x0 basic# ; #5498
[mk-app] #13160 = #5498 #13159
[instance] 0x0 #13160
[attach-enode] #13160 0
[end-of-instance]
[mk-app] #13160 not #13159
[inst-discovered] theory-solving 0x0 basic# ; #13160
[mk-app] #13161 = #13160 #13158
[instance] 0x0 #13161
[attach-enode] #13161 0
[end-of-instance]
[mk-app] #13160 or #13151 #13154 #13110 #13155 #1589 #5496 #5502
[mk-app] #13161 or #13156 #13158 #5502
[inst-discovered] theory-solving 0x0 basic# ; #13161
[mk-app] #13162 = #13161 #13160
[instance] 0x0 #13162
[attach-enode] #13162 0
[end-of-instance]
[mk-quant] #13161 user_vstd__seq__lemma_seq_update_different_0 6 #5505 #13160
[attach-var-names] #13161 (|a!| ; |Poly|) (|i2!| ; |Poly|) (|i1!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13158 or #5512 #13161
[mk-app] #13159 not #5515
[mk-app] #13156 or #13092 #13159
[mk-app] #13157 not #13156
[inst-discovered] theory-solving 0x0 basic# ; #5516
[mk-app] #13162 = #5516 #13157
[instance] 0x0 #13162
[attach-enode] #13162 0
[end-of-instance]
[mk-app] #13162 not #13157
[inst-discovered] theory-solving 0x0 basic# ; #13162
[mk-app] #13163 = #13162 #13156
[instance] 0x0 #13163
[attach-enode] #13163 0
[end-of-instance]
[mk-app] #13162 or #13082 #5431
[mk-app] #13163 not #13162
[inst-discovered] theory-solving 0x0 basic# ; #5537
[mk-app] #13164 = #5537 #13163
[instance] 0x0 #13164
[attach-enode] #13164 0
[end-of-instance]
[mk-app] #13164 not #13163
[inst-discovered] theory-solving 0x0 basic# ; #13164
[mk-app] #13165 = #13164 #13162
[instance] 0x0 #13165
[attach-enode] #13165 0
[end-of-instance]
[mk-app] #13163 or #192 #13082 #5431 #5522
[mk-app] #13164 or #192 #13162 #5522
[inst-discovered] theory-solving 0x0 basic# ; #13164
[mk-app] #13165 = #13164 #13163
[instance] 0x0 #13165
[attach-enode] #13165 0
[end-of-instance]
[mk-quant] #13164 user_vstd__seq__lemma_seq_ext_equal_0 1 #5525 #5526 #13163
[attach-var-names] #13164 (|i$| ; |Poly|)
[mk-app] #13162 not #13164
[mk-app] #13165 or #11646 #13162
[mk-app] #13166 not #13165
[mk-app] #13167 and #5519 #13164
[inst-discovered] theory-solving 0x0 basic# ; #13167
[mk-app] #13168 = #13167 #13166
[instance] 0x0 #13168
[attach-enode] #13168 0
[end-of-instance]
[mk-app] #13167 or #11645 #13166
[mk-app] #13168 not #11661
[mk-app] #13169 or #13168 #11682
[mk-app] #13170 not #13169
[inst-discovered] theory-solving 0x0 basic# ; #11684
[mk-app] #13171 = #11684 #13170
[instance] 0x0 #13171
[attach-enode] #13171 0
[end-of-instance]
[mk-app] #13171 not #13170
[inst-discovered] theory-solving 0x0 basic# ; #13171
[mk-app] #13172 = #13171 #13169
[instance] 0x0 #13172
[attach-enode] #13172 0
[end-of-instance]
[mk-app] #13170 or #11659 #13168 #11682 #11669
[mk-app] #13171 or #11659 #13169 #11669
[inst-discovered] theory-solving 0x0 basic# ; #13171
[mk-app] #13172 = #13171 #13170
[instance] 0x0 #13172
[attach-enode] #13172 0
[end-of-instance]
[mk-app] #13169 not #13170
[mk-app] #13171 or #5517 #11646 #13169
[inst-discovered] theory-solving 0x0 basic# ; #13171
[mk-app] #13172 = #13171 #13171
[instance] 0x0 #13172
[attach-enode] #13172 0
[end-of-instance]
[mk-app] #13172 not #13167
[mk-app] #13173 not #13171
[mk-app] #13174 or #13172 #13173
[mk-app] #13175 not #13174
[mk-app] #13176 and #13167 #13171
[inst-discovered] theory-solving 0x0 basic# ; #13176
[mk-app] #13177 = #13176 #13175
[instance] 0x0 #13177
[attach-enode] #13177 0
[end-of-instance]
[mk-app] #13176 or #13092 #13159 #5347 #13175
[mk-app] #13177 or #13156 #5347 #13175
[inst-discovered] theory-solving 0x0 basic# ; #13177
[mk-app] #13178 = #13177 #13176
[instance] 0x0 #13178
[attach-enode] #13178 0
[end-of-instance]
[mk-quant] #13177 user_vstd__seq__lemma_seq_ext_equal_1 4 #5532 #13176
[attach-var-names] #13177 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13156 or #5544 #13177
[mk-app] #13157 or #13092 #13159
[mk-app] #13178 not #13157
[inst-discovered] theory-solving 0x0 basic# ; #5516
[mk-app] #13179 = #5516 #13178
[instance] 0x0 #13179
[attach-enode] #13179 0
[end-of-instance]
[mk-app] #13179 not #13178
[inst-discovered] theory-solving 0x0 basic# ; #13179
[mk-app] #13180 = #13179 #13157
[instance] 0x0 #13180
[attach-enode] #13180 0
[end-of-instance]
[mk-app] #13179 or #13082 #5431
[mk-app] #13180 not #13179
[inst-discovered] theory-solving 0x0 basic# ; #5537
[mk-app] #13181 = #5537 #13180
[instance] 0x0 #13181
[attach-enode] #13181 0
[end-of-instance]
[mk-app] #13181 not #13180
[inst-discovered] theory-solving 0x0 basic# ; #13181
[mk-app] #13182 = #13181 #13179
[instance] 0x0 #13182
[attach-enode] #13182 0
[end-of-instance]
[mk-app] #13180 or #192 #13082 #5431 #5548
[mk-app] #13181 or #192 #13179 #5548
[inst-discovered] theory-solving 0x0 basic# ; #13181
[mk-app] #13182 = #13181 #13180
[instance] 0x0 #13182
[attach-enode] #13182 0
[end-of-instance]
[mk-quant] #13181 user_vstd__seq__lemma_seq_ext_equal_deep_0 1 #5525 #5526 #13180
[attach-var-names] #13181 (|i$| ; |Poly|)
[mk-app] #13179 not #13181
[mk-app] #13182 or #11646 #13179
[mk-app] #13183 not #13182
[mk-app] #13184 and #5519 #13181
[inst-discovered] theory-solving 0x0 basic# ; #13184
[mk-app] #13185 = #13184 #13183
[instance] 0x0 #13185
[attach-enode] #13185 0
[end-of-instance]
[mk-app] #13184 or #11674 #13183
[mk-app] #13185 not #11688
[mk-app] #13186 or #13185 #11713
[mk-app] #13187 not #13186
[inst-discovered] theory-solving 0x0 basic# ; #11715
[mk-app] #13188 = #11715 #13187
[instance] 0x0 #13188
[attach-enode] #13188 0
[end-of-instance]
[mk-app] #13188 not #13187
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #13189 = #13188 #13186
[instance] 0x0 #13189
[attach-enode] #13189 0
[end-of-instance]
[mk-app] #13187 or #11677 #13185 #11713 #11700
[mk-app] #13188 or #11677 #13186 #11700
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #13189 = #13188 #13187
[instance] 0x0 #13189
[attach-enode] #13189 0
[end-of-instance]
[mk-app] #13186 not #13187
[mk-app] #13188 or #5547 #11646 #13186
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #13189 = #13188 #13188
[instance] 0x0 #13189
[attach-enode] #13189 0
[end-of-instance]
[mk-app] #13189 not #13184
[mk-app] #13190 not #13188
[mk-app] #13191 or #13189 #13190
[mk-app] #13192 not #13191
[mk-app] #13193 and #13184 #13188
[inst-discovered] theory-solving 0x0 basic# ; #13193
[mk-app] #13194 = #13193 #13192
[instance] 0x0 #13194
[attach-enode] #13194 0
[end-of-instance]
[mk-app] #13193 or #13092 #13159 #5347 #13192
[mk-app] #13194 or #13157 #5347 #13192
[inst-discovered] theory-solving 0x0 basic# ; #13194
[mk-app] #13195 = #13194 #13193
[instance] 0x0 #13195
[attach-enode] #13195 0
[end-of-instance]
[mk-quant] #13194 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #5556 #13193
[attach-var-names] #13194 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13157 or #5565 #13194
[mk-app] #13178 or #13109 #13110 #192
[mk-app] #13195 not #13178
[inst-discovered] theory-solving 0x0 basic# ; #5280
[mk-app] #13196 = #5280 #13195
[instance] 0x0 #13196
[attach-enode] #13196 0
[end-of-instance]
[mk-app] #13196 not #13195
[inst-discovered] theory-solving 0x0 basic# ; #13196
[mk-app] #13197 = #13196 #13178
[instance] 0x0 #13197
[attach-enode] #13197 0
[end-of-instance]
[mk-app] #13196 or #5471 #12341 #10955 #13099
[mk-app] #13197 not #13196
[inst-discovered] theory-solving 0x0 basic# ; #5575
[mk-app] #13198 = #5575 #13197
[instance] 0x0 #13198
[attach-enode] #13198 0
[end-of-instance]
[mk-app] #13198 not #13197
[inst-discovered] theory-solving 0x0 basic# ; #13198
[mk-app] #13199 = #13198 #13196
[instance] 0x0 #13199
[attach-enode] #13199 0
[end-of-instance]
[mk-app] #13197 or #13109 #13110 #192 #5471 #12341 #10955 #13099 #5569
[mk-app] #13198 or #13178 #13196 #5569
[inst-discovered] theory-solving 0x0 basic# ; #13198
[mk-app] #13199 = #13198 #13197
[instance] 0x0 #13199
[attach-enode] #13199 0
[end-of-instance]
[mk-quant] #13196 user_vstd__seq__lemma_seq_subrange_len_0 5 #5572 #13197
[attach-var-names] #13196 (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13178 or #5579 #13196
[mk-app] #13195 or #13151 #13154 #13110 #192
[mk-app] #13198 not #13195
[inst-discovered] theory-solving 0x0 basic# ; #5582
[mk-app] #13199 = #5582 #13198
[instance] 0x0 #13199
[attach-enode] #13199 0
[end-of-instance]
[mk-app] #13199 not #13198
[inst-discovered] theory-solving 0x0 basic# ; #13199
[mk-app] #13200 = #13199 #13195
[instance] 0x0 #13200
[attach-enode] #13200 0
[end-of-instance]
[mk-app] #13199 not #5605
[mk-app] #13200 not #5610
[mk-app] #13201 or #1589 #13199 #10962 #13200 #13082 #5613
[mk-app] #13202 not #13201
[inst-discovered] theory-solving 0x0 basic# ; #5617
[mk-app] #13203 = #5617 #13202
[instance] 0x0 #13203
[attach-enode] #13203 0
[end-of-instance]
[mk-app] #13203 not #13202
[inst-discovered] theory-solving 0x0 basic# ; #13203
[mk-app] #13204 = #13203 #13201
[instance] 0x0 #13204
[attach-enode] #13204 0
[end-of-instance]
[mk-app] #13202 or #13151 #13154 #13110 #192 #1589 #13199 #10962 #13200 #13082 #5613 #5599
[mk-app] #13203 or #13195 #13201 #5599
[inst-discovered] theory-solving 0x0 basic# ; #13203
[mk-app] #13204 = #13203 #13202
[instance] 0x0 #13204
[attach-enode] #13204 0
[end-of-instance]
[mk-quant] #13201 user_vstd__seq__lemma_seq_subrange_index_0 6 #5602 #13202
[attach-var-names] #13201 (|i!| ; |Poly|) (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13195 or #5611 #13201
[mk-app] #13198 not #5625
[mk-app] #13203 not #5626
[mk-app] #13204 or #13198 #13203 #13154 #13110 #192
[mk-app] #13205 not #13204
[inst-discovered] theory-solving 0x0 basic# ; #5627
[mk-app] #13206 = #5627 #13205
[instance] 0x0 #13206
[attach-enode] #13206 0
[end-of-instance]
[mk-app] #13206 not #13205
[inst-discovered] theory-solving 0x0 basic# ; #13206
[mk-app] #13207 = #13206 #13204
[instance] 0x0 #13207
[attach-enode] #13207 0
[end-of-instance]
[mk-app] #13206 not #5628
[mk-app] #13207 not #5661
[mk-app] #13208 not #5660
[mk-app] #13209 not #5666
[mk-app] #13210 not #5667
[mk-app] #13211 not #5670
[mk-app] #13212 or #13206 #13207 #13208 #13209 #13210 #13211 #13082 #5673 #5679
[mk-app] #13213 not #13212
[inst-discovered] theory-solving 0x0 basic# ; #5683
[mk-app] #13214 = #5683 #13213
[instance] 0x0 #13214
[attach-enode] #13214 0
[end-of-instance]
[mk-app] #13214 not #13213
[inst-discovered] theory-solving 0x0 basic# ; #13214
[mk-app] #13215 = #13214 #13212
[instance] 0x0 #13215
[attach-enode] #13215 0
[end-of-instance]
[mk-app] #13213 or #13198 #13203 #13154 #13110 #192 #13206 #13207 #13208 #13209 #13210 #13211 #13082 #5673 #5679 #5654
[mk-app] #13214 or #13204 #13212 #5654
[inst-discovered] theory-solving 0x0 basic# ; #13214
[mk-app] #13215 = #13214 #13213
[instance] 0x0 #13215
[attach-enode] #13215 0
[end-of-instance]
[mk-quant] #13212 user_vstd__seq__lemma_seq_two_subranges_index_0 7 #5657 #13213
[attach-var-names] #13212 (|i!| ; |Poly|) (|k2!| ; |Poly|) (|k1!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13204 or #5677 #13212
[mk-app] #13205 or #5347 #12940 #12970
[mk-app] #13214 not #13205
[inst-discovered] theory-solving 0x0 basic# ; #4624
[mk-app] #13215 = #4624 #13214
[instance] 0x0 #13215
[attach-enode] #13215 0
[end-of-instance]
[mk-app] #13215 not #13214
[inst-discovered] theory-solving 0x0 basic# ; #13215
[mk-app] #13216 = #13215 #13205
[instance] 0x0 #13216
[attach-enode] #13216 0
[end-of-instance]
[mk-app] #13215 or #5347 #12940 #12970 #5671
[mk-app] #13216 or #13205 #5671
[inst-discovered] theory-solving 0x0 basic# ; #13216
[mk-app] #13217 = #13216 #13215
[instance] 0x0 #13217
[attach-enode] #13217 0
[end-of-instance]
[mk-quant] #13216 internal_core__ops__function__impls__impl&__4_trait_impl_definition 4 #5688 #13215
[attach-var-names] #13216 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13205 not #5693
[mk-app] #13214 or #13205 #13155
[mk-app] #13217 not #13214
[inst-discovered] theory-solving 0x0 basic# ; #5694
[mk-app] #13218 = #5694 #13217
[instance] 0x0 #13218
[attach-enode] #13218 0
[end-of-instance]
[mk-app] #13218 not #13217
[inst-discovered] theory-solving 0x0 basic# ; #13218
[mk-app] #13219 = #13218 #13214
[instance] 0x0 #13219
[attach-enode] #13219 0
[end-of-instance]
[mk-app] #13218 not #5697
[mk-app] #13219 not #5700
[mk-app] #13220 or #1589 #5347 #12971 #13218 #13219
[mk-app] #13221 not #13220
[inst-discovered] theory-solving 0x0 basic# ; #5708
[mk-app] #13222 = #5708 #13221
[instance] 0x0 #13222
[attach-enode] #13222 0
[end-of-instance]
[mk-app] #13222 not #13221
[inst-discovered] theory-solving 0x0 basic# ; #13222
[mk-app] #13223 = #13222 #13220
[instance] 0x0 #13223
[attach-enode] #13223 0
[end-of-instance]
[mk-app] #13221 or #13205 #13155 #1589 #5347 #12971 #13218 #13219 #5702
[mk-app] #13222 or #13214 #13220 #5702
[inst-discovered] theory-solving 0x0 basic# ; #13222
[mk-app] #13223 = #13222 #13221
[instance] 0x0 #13223
[attach-enode] #13223 0
[end-of-instance]
[mk-quant] #13220 user_vstd__function__axiom_fn_mut_call_requires_0 6 #5705 #13221
[attach-var-names] #13220 (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #13214 or #5713 #13220
[mk-app] #13217 not #5717
[mk-app] #13222 not #5718
[mk-app] #13223 not #5720
[mk-app] #13224 or #13217 #13222 #13223
[mk-app] #13225 not #13224
[inst-discovered] theory-solving 0x0 basic# ; #5721
[mk-app] #13226 = #5721 #13225
[instance] 0x0 #13226
[attach-enode] #13226 0
[end-of-instance]
[mk-app] #13226 not #13225
[inst-discovered] theory-solving 0x0 basic# ; #13226
[mk-app] #13227 = #13226 #13224
[instance] 0x0 #13227
[attach-enode] #13227 0
[end-of-instance]
[mk-app] #13226 not #5723
[mk-app] #13227 not #5725
[mk-app] #13228 not #5727
[mk-app] #13229 or #13206 #5471 #13226 #13227 #13228
[mk-app] #13230 not #13229
[inst-discovered] theory-solving 0x0 basic# ; #5737
[mk-app] #13231 = #5737 #13230
[instance] 0x0 #13231
[attach-enode] #13231 0
[end-of-instance]
[mk-app] #13231 not #13230
[inst-discovered] theory-solving 0x0 basic# ; #13231
[mk-app] #13232 = #13231 #13229
[instance] 0x0 #13232
[attach-enode] #13232 0
[end-of-instance]
[mk-app] #13230 not #5729
[mk-app] #13231 not #5730
[mk-app] #13232 or #13230 #13231
[mk-app] #13233 not #13232
[inst-discovered] theory-solving 0x0 basic# ; #5731
[mk-app] #13234 = #5731 #13233
[instance] 0x0 #13234
[attach-enode] #13234 0
[end-of-instance]
[mk-app] #13234 or #13217 #13222 #13223 #13206 #5471 #13226 #13227 #13228 #13233
[mk-app] #13235 or #13224 #13229 #13233
[inst-discovered] theory-solving 0x0 basic# ; #13235
[mk-app] #13236 = #13235 #13234
[instance] 0x0 #13236
[attach-enode] #13236 0
[end-of-instance]
[mk-quant] #13229 user_vstd__function__axiom_fn_mut_call_ensures_0 7 #5734 #13234
[attach-var-names] #13229 (|output!| ; |Poly|) (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #13224 or #5742 #13229
[inst-discovered] theory-solving 0x0 basic# ; #5779
[mk-app] #13225 = #5779 #5779
[instance] 0x0 #13225
[attach-enode] #13225 0
[end-of-instance]
[mk-app] #13225 or #13082 #5808
[mk-app] #13235 not #13225
[inst-discovered] theory-solving 0x0 basic# ; #5812
[mk-app] #13236 = #5812 #13235
[instance] 0x0 #13236
[attach-enode] #13236 0
[end-of-instance]
[mk-app] #13236 or #5813 #13235
[mk-app] #13237 = #5796 #13236
[mk-quant] #13238 internal_req__vstd!slice.SliceAdditionalSpecFns.spec_index._definition 6 #5804 #13237
[attach-var-names] #13238 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13239 or #10843 #192
[mk-app] #13240 not #13239
[inst-discovered] theory-solving 0x0 basic# ; #5806
[mk-app] #13241 = #5806 #13240
[instance] 0x0 #13241
[attach-enode] #13241 0
[end-of-instance]
[mk-app] #13241 not #13240
[inst-discovered] theory-solving 0x0 basic# ; #13241
[mk-app] #13242 = #13241 #13239
[instance] 0x0 #13242
[attach-enode] #13242 0
[end-of-instance]
[mk-app] #13241 or #10843 #192 #5817
[mk-app] #13242 or #13239 #5817
[inst-discovered] theory-solving 0x0 basic# ; #13242
[mk-app] #13243 = #13242 #13241
[instance] 0x0 #13243
[attach-enode] #13243 0
[end-of-instance]
[mk-quant] #13242 internal_vstd!slice.SliceAdditionalSpecFns.spec_index.?_pre_post_definition 6 #5819 #13241
[attach-var-names] #13242 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13239 not #5845
[mk-app] #13240 not #5846
[mk-app] #13243 or #13239 #13240
[mk-app] #13244 not #13243
[inst-discovered] theory-solving 0x0 basic# ; #5847
[mk-app] #13245 = #5847 #13244
[instance] 0x0 #13245
[attach-enode] #13245 0
[end-of-instance]
[mk-app] #13245 not #13244
[inst-discovered] theory-solving 0x0 basic# ; #13245
[mk-app] #13246 = #13245 #13243
[instance] 0x0 #13246
[attach-enode] #13246 0
[end-of-instance]
[mk-app] #13245 or #13082 #5875
[mk-app] #13246 not #13245
[inst-discovered] theory-solving 0x0 basic# ; #5879
[mk-app] #13247 = #5879 #13246
[instance] 0x0 #13247
[attach-enode] #13247 0
[end-of-instance]
[mk-app] #13247 not #13246
[inst-discovered] theory-solving 0x0 basic# ; #13247
[mk-app] #13248 = #13247 #13245
[instance] 0x0 #13248
[attach-enode] #13248 0
[end-of-instance]
[mk-app] #13246 or #192 #13082 #5875 #5860
[mk-app] #13247 or #192 #13245 #5860
[inst-discovered] theory-solving 0x0 basic# ; #13247
[mk-app] #13248 = #13247 #13246
[instance] 0x0 #13248
[attach-enode] #13248 0
[end-of-instance]
[mk-quant] #13245 user_vstd__slice__axiom_slice_ext_equal_0 1 #5863 #5864 #13246
[attach-var-names] #13245 (|i$| ; |Poly|)
[mk-app] #13247 not #13245
[mk-app] #13248 or #11706 #13247
[mk-app] #13249 not #13248
[mk-app] #13250 and #5851 #13245
[inst-discovered] theory-solving 0x0 basic# ; #13250
[mk-app] #13251 = #13250 #13249
[instance] 0x0 #13251
[attach-enode] #13251 0
[end-of-instance]
[mk-app] #13250 or #11705 #13249
[mk-app] #13251 not #11724
[mk-app] #13252 or #13251 #11746
[mk-app] #13253 not #13252
[inst-discovered] theory-solving 0x0 basic# ; #11747
[mk-app] #13254 = #11747 #13253
[instance] 0x0 #13254
[attach-enode] #13254 0
[end-of-instance]
[mk-app] #13254 not #13253
[inst-discovered] theory-solving 0x0 basic# ; #13254
[mk-app] #13255 = #13254 #13252
[instance] 0x0 #13255
[attach-enode] #13255 0
[end-of-instance]
[mk-app] #13253 or #11709 #13251 #11746 #11733
[mk-app] #13254 or #11709 #13252 #11733
[inst-discovered] theory-solving 0x0 basic# ; #13254
[mk-app] #13255 = #13254 #13253
[instance] 0x0 #13255
[attach-enode] #13255 0
[end-of-instance]
[mk-app] #13252 not #13253
[mk-app] #13254 or #5848 #11706 #13252
[inst-discovered] theory-solving 0x0 basic# ; #13254
[mk-app] #13255 = #13254 #13254
[instance] 0x0 #13255
[attach-enode] #13255 0
[end-of-instance]
[mk-app] #13255 not #13250
[mk-app] #13256 not #13254
[mk-app] #13257 or #13255 #13256
[mk-app] #13258 not #13257
[mk-app] #13259 and #13250 #13254
[inst-discovered] theory-solving 0x0 basic# ; #13259
[mk-app] #13260 = #13259 #13258
[instance] 0x0 #13260
[attach-enode] #13260 0
[end-of-instance]
[mk-app] #13259 or #13239 #13240 #5347 #13258
[mk-app] #13260 or #13243 #5347 #13258
[inst-discovered] theory-solving 0x0 basic# ; #13260
[mk-app] #13261 = #13260 #13259
[instance] 0x0 #13261
[attach-enode] #13261 0
[end-of-instance]
[mk-quant] #13260 user_vstd__slice__axiom_slice_ext_equal_1 4 #5870 #13259
[attach-var-names] #13260 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13243 or #5886 #13260
[mk-app] #13244 not #5888
[mk-app] #13261 or #13244 #13110 #8033
[mk-app] #13262 not #13261
[inst-discovered] theory-solving 0x0 basic# ; #5889
[mk-app] #13263 = #5889 #13262
[instance] 0x0 #13263
[attach-enode] #13263 0
[end-of-instance]
[mk-app] #13263 not #13262
[inst-discovered] theory-solving 0x0 basic# ; #13263
[mk-app] #13264 = #13263 #13261
[instance] 0x0 #13264
[attach-enode] #13264 0
[end-of-instance]
[mk-app] #13263 or #13244 #13110 #8033 #5891
[mk-app] #13264 or #13261 #5891
[inst-discovered] theory-solving 0x0 basic# ; #13264
[mk-app] #13265 = #13264 #13263
[instance] 0x0 #13265
[attach-enode] #13265 0
[end-of-instance]
[mk-quant] #13264 internal_vstd!slice.spec_slice_update.?_pre_post_definition 5 #5893 #13263
[attach-var-names] #13264 (|t!| ; |Poly|) (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13261 or #13244 #13110 #8033
[mk-app] #13262 not #13261
[inst-discovered] theory-solving 0x0 basic# ; #5889
[mk-app] #13265 = #5889 #13262
[instance] 0x0 #13265
[attach-enode] #13265 0
[end-of-instance]
[mk-app] #13265 not #13262
[inst-discovered] theory-solving 0x0 basic# ; #13265
[mk-app] #13266 = #13265 #13261
[instance] 0x0 #13266
[attach-enode] #13266 0
[end-of-instance]
[mk-app] #13265 or #12341 #5913
[mk-app] #13266 not #13265
[inst-discovered] theory-solving 0x0 basic# ; #5917
[mk-app] #13267 = #5917 #13266
[instance] 0x0 #13267
[attach-enode] #13267 0
[end-of-instance]
[mk-app] #13267 not #13266
[inst-discovered] theory-solving 0x0 basic# ; #13267
[mk-app] #13268 = #13267 #13265
[instance] 0x0 #13268
[attach-enode] #13268 0
[end-of-instance]
[mk-app] #13266 or #13244 #13110 #8033 #5471 #12341 #5913 #5904
[mk-app] #13267 or #13261 #5471 #13265 #5904
[inst-discovered] theory-solving 0x0 basic# ; #13267
[mk-app] #13268 = #13267 #13266
[instance] 0x0 #13268
[attach-enode] #13268 0
[end-of-instance]
[mk-quant] #13265 user_vstd__slice__axiom_spec_slice_update_0 5 #5908 #13266
[attach-var-names] #13265 (|t!| ; |Poly|) (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13261 or #5911 #13265
[mk-app] #13262 or #13239 #192
[mk-app] #13267 not #13262
[inst-discovered] theory-solving 0x0 basic# ; #5921
[mk-app] #13268 = #5921 #13267
[instance] 0x0 #13268
[attach-enode] #13268 0
[end-of-instance]
[mk-app] #13268 not #13267
[inst-discovered] theory-solving 0x0 basic# ; #13268
[mk-app] #13269 = #13268 #13262
[instance] 0x0 #13269
[attach-enode] #13269 0
[end-of-instance]
[mk-app] #13268 or #13239 #192 #5923
[mk-app] #13269 or #13262 #5923
[inst-discovered] theory-solving 0x0 basic# ; #13269
[mk-app] #13270 = #13269 #13268
[instance] 0x0 #13270
[attach-enode] #13270 0
[end-of-instance]
[mk-quant] #13269 internal_vstd!slice.spec_slice_index.?_pre_post_definition 4 #5925 #13268
[attach-var-names] #13269 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13262 or #13239 #192
[mk-app] #13267 not #13262
[inst-discovered] theory-solving 0x0 basic# ; #5921
[mk-app] #13270 = #5921 #13267
[instance] 0x0 #13270
[attach-enode] #13270 0
[end-of-instance]
[mk-app] #13270 not #13267
[inst-discovered] theory-solving 0x0 basic# ; #13270
[mk-app] #13271 = #13270 #13262
[instance] 0x0 #13271
[attach-enode] #13271 0
[end-of-instance]
[mk-app] #13270 or #13082 #5942
[mk-app] #13271 not #13270
[inst-discovered] theory-solving 0x0 basic# ; #5946
[mk-app] #13272 = #5946 #13271
[instance] 0x0 #13272
[attach-enode] #13272 0
[end-of-instance]
[mk-app] #13272 not #13271
[inst-discovered] theory-solving 0x0 basic# ; #13272
[mk-app] #13273 = #13272 #13270
[instance] 0x0 #13273
[attach-enode] #13273 0
[end-of-instance]
[mk-app] #13271 or #13239 #192 #5347 #13082 #5942 #5934
[mk-app] #13272 or #13262 #5347 #13270 #5934
[inst-discovered] theory-solving 0x0 basic# ; #13272
[mk-app] #13273 = #13272 #13271
[instance] 0x0 #13273
[attach-enode] #13273 0
[end-of-instance]
[mk-quant] #13272 user_vstd__slice__axiom_spec_slice_index_0 4 #5925 #13271
[attach-var-names] #13272 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13270 or #5940 #13272
[mk-app] #13262 or #13239 #192
[mk-app] #13267 not #13262
[inst-discovered] theory-solving 0x0 basic# ; #5921
[mk-app] #13273 = #5921 #13267
[instance] 0x0 #13273
[attach-enode] #13273 0
[end-of-instance]
[mk-app] #13273 not #13267
[inst-discovered] theory-solving 0x0 basic# ; #13273
[mk-app] #13274 = #13273 #13262
[instance] 0x0 #13274
[attach-enode] #13274 0
[end-of-instance]
[mk-app] #13273 or #13082 #5942
[mk-app] #13274 not #13273
[inst-discovered] theory-solving 0x0 basic# ; #5946
[mk-app] #13275 = #5946 #13274
[instance] 0x0 #13275
[attach-enode] #13275 0
[end-of-instance]
[mk-app] #13275 not #13274
[inst-discovered] theory-solving 0x0 basic# ; #13275
[mk-app] #13276 = #13275 #13273
[instance] 0x0 #13276
[attach-enode] #13276 0
[end-of-instance]
[mk-app] #13274 or #13239 #192 #5347 #13082 #5942 #5962 #5952
[mk-app] #13275 or #13262 #5347 #13273 #5962 #5952
[inst-discovered] theory-solving 0x0 basic# ; #13275
[mk-app] #13276 = #13275 #13274
[instance] 0x0 #13276
[attach-enode] #13276 0
[end-of-instance]
[mk-quant] #13275 user_vstd__slice__axiom_slice_has_resolved_0 4 #5957 #13274
[attach-var-names] #13275 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13273 or #5960 #13275
[inst-discovered] theory-solving 0x0 basic# ; #5975
[mk-app] #13262 = #5975 #5975
[instance] 0x0 #13262
[attach-enode] #13262 0
[end-of-instance]
[mk-app] #13262 or #13239 #192
[mk-app] #13267 not #13262
[inst-discovered] theory-solving 0x0 basic# ; #5921
[mk-app] #13276 = #5921 #13267
[instance] 0x0 #13276
[attach-enode] #13276 0
[end-of-instance]
[mk-app] #13276 not #13267
[inst-discovered] theory-solving 0x0 basic# ; #13276
[mk-app] #13277 = #13276 #13262
[instance] 0x0 #13277
[attach-enode] #13277 0
[end-of-instance]
[mk-app] #13276 or #5347 #13082 #5992
[mk-app] #13277 not #13276
[inst-discovered] theory-solving 0x0 basic# ; #5996
[mk-app] #13278 = #5996 #13277
[instance] 0x0 #13278
[attach-enode] #13278 0
[end-of-instance]
[mk-app] #13278 not #13277
[inst-discovered] theory-solving 0x0 basic# ; #13278
[mk-app] #13279 = #13278 #13276
[instance] 0x0 #13279
[attach-enode] #13279 0
[end-of-instance]
[mk-app] #13277 or #13239 #192 #5347 #13082 #5992 #5984
[mk-app] #13278 or #13262 #13276 #5984
[inst-discovered] theory-solving 0x0 basic# ; #13278
[mk-app] #13279 = #13278 #13277
[instance] 0x0 #13279
[attach-enode] #13279 0
[end-of-instance]
[mk-quant] #13276 user_vstd__slice__lemma_slice_index_decreases_0 4 #5987 #13277
[attach-var-names] #13276 (|i!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13262 or #5990 #13276
[mk-app] #13267 not #6028
[mk-app] #13278 or #5471 #13267
[mk-app] #13279 not #13278
[inst-discovered] theory-solving 0x0 basic# ; #6029
[mk-app] #13280 = #6029 #13279
[instance] 0x0 #13280
[attach-enode] #13280 0
[end-of-instance]
[mk-app] #13280 not #13279
[inst-discovered] theory-solving 0x0 basic# ; #13280
[mk-app] #13281 = #13280 #13278
[instance] 0x0 #13281
[attach-enode] #13281 0
[end-of-instance]
[mk-app] #13280 or #5471 #13267 #6031
[mk-app] #13281 or #13278 #6031
[inst-discovered] theory-solving 0x0 basic# ; #13281
[mk-app] #13282 = #13281 #13280
[instance] 0x0 #13282
[attach-enode] #13282 0
[end-of-instance]
[mk-quant] #13281 internal_vstd!array.impl&__0.view.?_definition 5 #6033 #13280
[attach-var-names] #13281 (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13278 or #6039 #13281
[mk-app] #13279 or #5347 #12938
[mk-app] #13282 not #13279
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #13283 = #3386 #13282
[instance] 0x0 #13283
[attach-enode] #13283 0
[end-of-instance]
[mk-app] #13283 not #13282
[inst-discovered] theory-solving 0x0 basic# ; #13283
[mk-app] #13284 = #13283 #13279
[instance] 0x0 #13284
[attach-enode] #13284 0
[end-of-instance]
[mk-app] #13283 or #5347 #12938 #6041
[mk-app] #13284 or #13279 #6041
[inst-discovered] theory-solving 0x0 basic# ; #13284
[mk-app] #13285 = #13284 #13283
[instance] 0x0 #13285
[attach-enode] #13285 0
[end-of-instance]
[mk-quant] #13284 internal_vstd__array__impl&__0_trait_impl_definition 4 #6043 #13283
[attach-var-names] #13284 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13279 or #5471 #13267
[mk-app] #13282 not #13279
[inst-discovered] theory-solving 0x0 basic# ; #6029
[mk-app] #13285 = #6029 #13282
[instance] 0x0 #13285
[attach-enode] #13285 0
[end-of-instance]
[mk-app] #13285 not #13282
[inst-discovered] theory-solving 0x0 basic# ; #13285
[mk-app] #13286 = #13285 #13279
[instance] 0x0 #13286
[attach-enode] #13286 0
[end-of-instance]
[mk-app] #13285 or #1656 #5471 #13267 #6049
[mk-app] #13286 or #1656 #13279 #6049
[inst-discovered] theory-solving 0x0 basic# ; #13286
[mk-app] #13287 = #13286 #13285
[instance] 0x0 #13287
[attach-enode] #13287 0
[end-of-instance]
[mk-quant] #13286 user_vstd__array__array_len_matches_n_0 5 #6052 #13285
[attach-var-names] #13286 (|ar!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13279 or #6057 #13286
[inst-discovered] theory-solving 0x0 basic# ; #5812
[mk-app] #13282 = #5812 #13235
[instance] 0x0 #13282
[attach-enode] #13282 0
[end-of-instance]
[mk-app] #13282 or #6067 #13235
[mk-app] #13287 = #6059 #13282
[mk-quant] #13288 internal_req__vstd!array.ArrayAdditionalSpecFns.spec_index._definition 6 #6063 #13287
[attach-var-names] #13288 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13289 or #10843 #192
[mk-app] #13290 not #13289
[inst-discovered] theory-solving 0x0 basic# ; #5806
[mk-app] #13291 = #5806 #13290
[instance] 0x0 #13291
[attach-enode] #13291 0
[end-of-instance]
[mk-app] #13291 not #13290
[inst-discovered] theory-solving 0x0 basic# ; #13291
[mk-app] #13292 = #13291 #13289
[instance] 0x0 #13292
[attach-enode] #13292 0
[end-of-instance]
[mk-app] #13291 or #10843 #192 #6066
[mk-app] #13292 or #13289 #6066
[inst-discovered] theory-solving 0x0 basic# ; #13292
[mk-app] #13293 = #13292 #13291
[instance] 0x0 #13293
[attach-enode] #13293 0
[end-of-instance]
[mk-quant] #13292 internal_vstd!array.ArrayAdditionalSpecFns.spec_index.?_pre_post_definition 6 #6072 #13291
[attach-var-names] #13292 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13289 or #1589 #12844
[mk-app] #13290 not #13289
[inst-discovered] theory-solving 0x0 basic# ; #6078
[mk-app] #13293 = #6078 #13290
[instance] 0x0 #13293
[attach-enode] #13293 0
[end-of-instance]
[mk-app] #13293 not #13290
[inst-discovered] theory-solving 0x0 basic# ; #13293
[mk-app] #13294 = #13293 #13289
[instance] 0x0 #13294
[attach-enode] #13294 0
[end-of-instance]
[mk-app] #13293 or #1589 #12844 #6083
[mk-app] #13294 or #13289 #6083
[inst-discovered] theory-solving 0x0 basic# ; #13294
[mk-app] #13295 = #13294 #13293
[instance] 0x0 #13295
[attach-enode] #13295 0
[end-of-instance]
[mk-quant] #13294 internal_vstd!array.impl&__2.spec_index.?_definition 6 #6085 #13293
[attach-var-names] #13294 (|i!| ; |Poly|) (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13289 or #6091 #13294
[mk-app] #13290 or #5347 #12938
[mk-app] #13295 not #13290
[inst-discovered] theory-solving 0x0 basic# ; #3386
[mk-app] #13296 = #3386 #13295
[instance] 0x0 #13296
[attach-enode] #13296 0
[end-of-instance]
[mk-app] #13296 not #13295
[inst-discovered] theory-solving 0x0 basic# ; #13296
[mk-app] #13297 = #13296 #13290
[instance] 0x0 #13297
[attach-enode] #13297 0
[end-of-instance]
[mk-app] #13296 or #5347 #12938 #6093
[mk-app] #13297 or #13290 #6093
[inst-discovered] theory-solving 0x0 basic# ; #13297
[mk-app] #13298 = #13297 #13296
[instance] 0x0 #13298
[attach-enode] #13298 0
[end-of-instance]
[mk-quant] #13297 internal_vstd__array__impl&__2_trait_impl_definition 4 #6095 #13296
[attach-var-names] #13297 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13290 not #6100
[mk-app] #13295 or #13290 #192
[mk-app] #13298 not #13295
[inst-discovered] theory-solving 0x0 basic# ; #6101
[mk-app] #13299 = #6101 #13298
[instance] 0x0 #13299
[attach-enode] #13299 0
[end-of-instance]
[mk-app] #13299 not #13298
[inst-discovered] theory-solving 0x0 basic# ; #13299
[mk-app] #13300 = #13299 #13295
[instance] 0x0 #13300
[attach-enode] #13300 0
[end-of-instance]
[mk-app] #13299 or #1589 #12844 #13082 #6117
[mk-app] #13300 not #13299
[inst-discovered] theory-solving 0x0 basic# ; #6121
[mk-app] #13301 = #6121 #13300
[instance] 0x0 #13301
[attach-enode] #13301 0
[end-of-instance]
[mk-app] #13301 not #13300
[inst-discovered] theory-solving 0x0 basic# ; #13301
[mk-app] #13302 = #13301 #13299
[instance] 0x0 #13302
[attach-enode] #13302 0
[end-of-instance]
[mk-app] #13300 or #13290 #192 #1589 #12844 #13082 #6117 #6107
[mk-app] #13301 or #13295 #13299 #6107
[inst-discovered] theory-solving 0x0 basic# ; #13301
[mk-app] #13302 = #13301 #13300
[instance] 0x0 #13302
[attach-enode] #13302 0
[end-of-instance]
[mk-quant] #13299 user_vstd__array__lemma_array_index_0 6 #6112 #13300
[attach-var-names] #13299 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13295 or #6115 #13299
[mk-app] #13298 not #6127
[mk-app] #13301 or #13290 #13298
[mk-app] #13302 not #13301
[inst-discovered] theory-solving 0x0 basic# ; #6128
[mk-app] #13303 = #6128 #13302
[instance] 0x0 #13303
[attach-enode] #13303 0
[end-of-instance]
[mk-app] #13303 not #13302
[inst-discovered] theory-solving 0x0 basic# ; #13303
[mk-app] #13304 = #13303 #13301
[instance] 0x0 #13304
[attach-enode] #13304 0
[end-of-instance]
[mk-app] #13303 or #1589 #12844
[mk-app] #13304 not #13303
[inst-discovered] theory-solving 0x0 basic# ; #6078
[mk-app] #13305 = #6078 #13304
[instance] 0x0 #13305
[attach-enode] #13305 0
[end-of-instance]
[mk-app] #13305 not #13304
[inst-discovered] theory-solving 0x0 basic# ; #13305
[mk-app] #13306 = #13305 #13303
[instance] 0x0 #13306
[attach-enode] #13306 0
[end-of-instance]
[mk-app] #13305 or #13082 #6152
[mk-app] #13306 not #13305
[inst-discovered] theory-solving 0x0 basic# ; #6156
[mk-app] #13307 = #6156 #13306
[instance] 0x0 #13307
[attach-enode] #13307 0
[end-of-instance]
[mk-app] #13307 not #13306
[inst-discovered] theory-solving 0x0 basic# ; #13307
[mk-app] #13308 = #13307 #13305
[instance] 0x0 #13308
[attach-enode] #13308 0
[end-of-instance]
[mk-app] #13306 or #192 #13082 #6152 #6138
[mk-app] #13307 or #192 #13305 #6138
[inst-discovered] theory-solving 0x0 basic# ; #13307
[mk-app] #13308 = #13307 #13306
[instance] 0x0 #13308
[attach-enode] #13308 0
[end-of-instance]
[mk-quant] #13305 user_vstd__array__axiom_array_ext_equal_0 1 #6141 #6142 #13306
[attach-var-names] #13305 (|i$| ; |Poly|)
[mk-app] #13307 or #11738 #13305
[mk-app] #13308 not #11756
[mk-app] #13309 or #13308 #11777
[mk-app] #13310 not #13309
[inst-discovered] theory-solving 0x0 basic# ; #11778
[mk-app] #13311 = #11778 #13310
[instance] 0x0 #13311
[attach-enode] #13311 0
[end-of-instance]
[mk-app] #13311 not #13310
[inst-discovered] theory-solving 0x0 basic# ; #13311
[mk-app] #13312 = #13311 #13309
[instance] 0x0 #13312
[attach-enode] #13312 0
[end-of-instance]
[mk-app] #13310 or #11741 #13308 #11777 #11765
[mk-app] #13311 or #11741 #13309 #11765
[inst-discovered] theory-solving 0x0 basic# ; #13311
[mk-app] #13312 = #13311 #13310
[instance] 0x0 #13312
[attach-enode] #13312 0
[end-of-instance]
[mk-app] #13309 not #13310
[mk-app] #13311 or #6129 #13309
[inst-discovered] theory-solving 0x0 basic# ; #13311
[mk-app] #13312 = #13311 #13311
[instance] 0x0 #13312
[attach-enode] #13312 0
[end-of-instance]
[mk-app] #13312 not #13307
[mk-app] #13313 not #13311
[mk-app] #13314 or #13312 #13313
[mk-app] #13315 not #13314
[mk-app] #13316 and #13307 #13311
[inst-discovered] theory-solving 0x0 basic# ; #13316
[mk-app] #13317 = #13316 #13315
[instance] 0x0 #13317
[attach-enode] #13317 0
[end-of-instance]
[mk-app] #13316 or #13290 #13298 #1589 #12844 #13315
[mk-app] #13317 or #13301 #13303 #13315
[inst-discovered] theory-solving 0x0 basic# ; #13317
[mk-app] #13318 = #13317 #13316
[instance] 0x0 #13318
[attach-enode] #13318 0
[end-of-instance]
[mk-quant] #13317 user_vstd__array__axiom_array_ext_equal_1 6 #6147 #13316
[attach-var-names] #13317 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13303 or #6162 #13317
[mk-app] #13301 or #13290 #192
[mk-app] #13302 not #13301
[inst-discovered] theory-solving 0x0 basic# ; #6101
[mk-app] #13304 = #6101 #13302
[instance] 0x0 #13304
[attach-enode] #13304 0
[end-of-instance]
[mk-app] #13304 not #13302
[inst-discovered] theory-solving 0x0 basic# ; #13304
[mk-app] #13318 = #13304 #13301
[instance] 0x0 #13318
[attach-enode] #13318 0
[end-of-instance]
[mk-app] #13304 or #1589 #12844
[mk-app] #13318 not #13304
[inst-discovered] theory-solving 0x0 basic# ; #6078
[mk-app] #13319 = #6078 #13318
[instance] 0x0 #13319
[attach-enode] #13319 0
[end-of-instance]
[mk-app] #13319 not #13318
[inst-discovered] theory-solving 0x0 basic# ; #13319
[mk-app] #13320 = #13319 #13304
[instance] 0x0 #13320
[attach-enode] #13320 0
[end-of-instance]
[mk-app] #13319 or #13082 #6117
[mk-app] #13320 not #13319
[inst-discovered] theory-solving 0x0 basic# ; #6176
[mk-app] #13321 = #6176 #13320
[instance] 0x0 #13321
[attach-enode] #13321 0
[end-of-instance]
[mk-app] #13321 not #13320
[inst-discovered] theory-solving 0x0 basic# ; #13321
[mk-app] #13322 = #13321 #13319
[instance] 0x0 #13322
[attach-enode] #13322 0
[end-of-instance]
[mk-app] #13320 or #13290 #192 #1589 #12844 #13082 #6117 #6177 #6166
[mk-app] #13321 or #13301 #13304 #13319 #6177 #6166
[inst-discovered] theory-solving 0x0 basic# ; #13321
[mk-app] #13322 = #13321 #13320
[instance] 0x0 #13322
[attach-enode] #13322 0
[end-of-instance]
[mk-quant] #13319 user_vstd__array__axiom_array_has_resolved_0 6 #6171 #13320
[attach-var-names] #13319 (|i!| ; |Poly|) (|array!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13304 or #6174 #13319
[mk-app] #13301 or #5471 #13267
[mk-app] #13302 not #13301
[inst-discovered] theory-solving 0x0 basic# ; #6029
[mk-app] #13318 = #6029 #13302
[instance] 0x0 #13318
[attach-enode] #13318 0
[end-of-instance]
[mk-app] #13318 not #13302
[inst-discovered] theory-solving 0x0 basic# ; #13318
[mk-app] #13321 = #13318 #13301
[instance] 0x0 #13321
[attach-enode] #13321 0
[end-of-instance]
[mk-app] #13318 or #1656 #5471 #13267 #6183
[mk-app] #13321 or #1656 #13301 #6183
[inst-discovered] theory-solving 0x0 basic# ; #13321
[mk-app] #13322 = #13321 #13318
[instance] 0x0 #13322
[attach-enode] #13322 0
[end-of-instance]
[mk-quant] #13321 user_vstd__array__axiom_array_decreases_to_seq_0 5 #6186 #13318
[attach-var-names] #13321 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13301 or #6191 #13321
[mk-app] #13302 or #13290 #192
[mk-app] #13322 not #13302
[inst-discovered] theory-solving 0x0 basic# ; #6101
[mk-app] #13323 = #6101 #13322
[instance] 0x0 #13323
[attach-enode] #13323 0
[end-of-instance]
[mk-app] #13323 not #13322
[inst-discovered] theory-solving 0x0 basic# ; #13323
[mk-app] #13324 = #13323 #13302
[instance] 0x0 #13324
[attach-enode] #13324 0
[end-of-instance]
[mk-app] #13323 or #1589 #12844 #13082 #6207
[mk-app] #13324 not #13323
[inst-discovered] theory-solving 0x0 basic# ; #6211
[mk-app] #13325 = #6211 #13324
[instance] 0x0 #13325
[attach-enode] #13325 0
[end-of-instance]
[mk-app] #13325 not #13324
[inst-discovered] theory-solving 0x0 basic# ; #13325
[mk-app] #13326 = #13325 #13323
[instance] 0x0 #13326
[attach-enode] #13326 0
[end-of-instance]
[mk-app] #13324 or #13290 #192 #1589 #12844 #13082 #6207 #6199
[mk-app] #13325 or #13302 #13323 #6199
[inst-discovered] theory-solving 0x0 basic# ; #13325
[mk-app] #13326 = #13325 #13324
[instance] 0x0 #13326
[attach-enode] #13326 0
[end-of-instance]
[mk-quant] #13323 user_vstd__array__lemma_array_index_decreases_0 6 #6202 #13324
[attach-var-names] #13323 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13302 or #6205 #13323
[mk-app] #13322 not #6240
[mk-app] #13325 or #13322 #2024
[mk-app] #13326 not #13325
[inst-discovered] theory-solving 0x0 basic# ; #6241
[mk-app] #13327 = #6241 #13326
[instance] 0x0 #13327
[attach-enode] #13327 0
[end-of-instance]
[mk-app] #13327 not #13326
[inst-discovered] theory-solving 0x0 basic# ; #13327
[mk-app] #13328 = #13327 #13325
[instance] 0x0 #13328
[attach-enode] #13328 0
[end-of-instance]
[mk-app] #13327 or #13322 #2024 #6244
[mk-app] #13328 or #13325 #6244
[inst-discovered] theory-solving 0x0 basic# ; #13328
[mk-app] #13329 = #13328 #13327
[instance] 0x0 #13329
[attach-enode] #13329 0
[end-of-instance]
[mk-quant] #13328 internal_vstd!raw_ptr.view_reverse_for_eq_sized.?_pre_post_definition 4 #6246 #13327
[attach-var-names] #13328 (|provenance!| ; |Poly|) (|addr!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #6264
[mk-app] #13325 = #6264 #6264
[instance] 0x0 #13325
[attach-enode] #13325 0
[end-of-instance]
[mk-app] #13325 or #10843 #10213
[mk-app] #13326 not #13325
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13329 = #2596 #13326
[instance] 0x0 #13329
[attach-enode] #13329 0
[end-of-instance]
[mk-app] #13329 not #13326
[inst-discovered] theory-solving 0x0 basic# ; #13329
[mk-app] #13330 = #13329 #13325
[instance] 0x0 #13330
[attach-enode] #13330 0
[end-of-instance]
[mk-app] #13329 or #10843 #10213 #6273
[mk-app] #13330 or #13325 #6273
[inst-discovered] theory-solving 0x0 basic# ; #13330
[mk-app] #13331 = #13330 #13329
[instance] 0x0 #13331
[attach-enode] #13331 0
[end-of-instance]
[mk-quant] #13330 internal_vstd!std_specs.cmp.PartialEqSpec.eq_spec.?_pre_post_definition 6 #6275 #13329
[attach-var-names] #13330 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13325 or #10843 #10213
[mk-app] #13326 not #13325
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13331 = #2596 #13326
[instance] 0x0 #13331
[attach-enode] #13331 0
[end-of-instance]
[mk-app] #13331 not #13326
[inst-discovered] theory-solving 0x0 basic# ; #13331
[mk-app] #13332 = #13331 #13325
[instance] 0x0 #13332
[attach-enode] #13332 0
[end-of-instance]
[mk-app] #13331 or #10843 #10213 #6304
[mk-app] #13332 or #13325 #6304
[inst-discovered] theory-solving 0x0 basic# ; #13332
[mk-app] #13333 = #13332 #13331
[instance] 0x0 #13333
[attach-enode] #13333 0
[end-of-instance]
[mk-quant] #13332 internal_vstd!std_specs.cmp.PartialOrdSpec.partial_cmp_spec.?_pre_post_definition 6 #6306 #13331
[attach-var-names] #13332 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13325 not #6311
[mk-app] #13326 not #6322
[mk-app] #13333 or #13325 #13326
[mk-app] #13334 not #13333
[inst-discovered] theory-solving 0x0 basic# ; #6323
[mk-app] #13335 = #6323 #13334
[instance] 0x0 #13335
[attach-enode] #13335 0
[end-of-instance]
[mk-app] #13335 = #13333 #6310
[mk-app] #13336 not #13335
[mk-app] #13337 = #6310 #13334
[inst-discovered] theory-solving 0x0 basic# ; #13337
[mk-app] #13338 = #13337 #13336
[instance] 0x0 #13338
[attach-enode] #13338 0
[end-of-instance]
[mk-app] #13334 not #13333
[inst-discovered] theory-solving 0x0 basic# ; #13336
[mk-app] #13334 = #13336 #13336
[instance] 0x0 #13334
[attach-enode] #13334 0
[end-of-instance]
[mk-quant] #13334 internal_ens__core!cmp.PartialOrd.partial_cmp._definition 7 #6319 #13336
[attach-var-names] #13334 (|r!| ; |Poly|) (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13337 not #6338
[mk-app] #13338 not #6339
[mk-app] #13339 or #13337 #13338
[mk-app] #13340 not #13339
[inst-discovered] theory-solving 0x0 basic# ; #6340
[mk-app] #13341 = #6340 #13340
[instance] 0x0 #13341
[attach-enode] #13341 0
[end-of-instance]
[mk-app] #13341 not #13340
[inst-discovered] theory-solving 0x0 basic# ; #13341
[mk-app] #13342 = #13341 #13339
[instance] 0x0 #13342
[attach-enode] #13342 0
[end-of-instance]
[mk-app] #13341 or #13337 #13338 #6355 #6353 #6347
[mk-app] #13342 or #13339 #6355 #6353 #6347
[inst-discovered] theory-solving 0x0 basic# ; #13342
[mk-app] #13343 = #13342 #13341
[instance] 0x0 #13343
[attach-enode] #13343 0
[end-of-instance]
[mk-quant] #13342 user_core__cmp__PartialOrd__partial_cmp_1 6 #6351 #13341
[attach-var-names] #13342 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|r$| ; |Poly|) (|closure%$| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #6400
[mk-app] #13339 = #6400 #6400
[instance] 0x0 #13339
[attach-enode] #13339 0
[end-of-instance]
[mk-app] #13339 not #6397
[mk-app] #13340 not #6400
[mk-app] #13343 or #13339 #13340
[mk-app] #13344 not #13343
[inst-discovered] theory-solving 0x0 basic# ; #6401
[mk-app] #13345 = #6401 #13344
[instance] 0x0 #13345
[attach-enode] #13345 0
[end-of-instance]
[mk-app] #13345 = #13343 #175
[mk-app] #13346 not #13345
[mk-app] #13347 = #175 #13344
[inst-discovered] theory-solving 0x0 basic# ; #13347
[mk-app] #13348 = #13347 #13346
[instance] 0x0 #13348
[attach-enode] #13348 0
[end-of-instance]
[mk-app] #13344 not #13343
[inst-discovered] theory-solving 0x0 basic# ; #13346
[mk-app] #13344 = #13346 #13346
[instance] 0x0 #13344
[attach-enode] #13344 0
[end-of-instance]
[mk-app] #13344 or #6321 #13346
[inst-discovered] theory-solving 0x0 basic# ; #11799
[mk-app] #13347 = #11799 #11799
[instance] 0x0 #13347
[attach-enode] #13347 0
[end-of-instance]
[mk-app] #13347 not #11794
[mk-app] #13348 not #11799
[mk-app] #13349 or #13347 #13348
[mk-app] #13350 not #13349
[inst-discovered] theory-solving 0x0 basic# ; #11800
[mk-app] #13351 = #11800 #13350
[instance] 0x0 #13351
[attach-enode] #13351 0
[end-of-instance]
[mk-app] #13351 = #13349 #175
[mk-app] #13352 not #13351
[mk-app] #13353 = #175 #13350
[inst-discovered] theory-solving 0x0 basic# ; #13353
[mk-app] #13354 = #13353 #13352
[instance] 0x0 #13354
[attach-enode] #13354 0
[end-of-instance]
[mk-app] #13350 not #13349
[inst-discovered] theory-solving 0x0 basic# ; #13352
[mk-app] #13350 = #13352 #13352
[instance] 0x0 #13350
[attach-enode] #13350 0
[end-of-instance]
[mk-app] #13350 not #11771
[mk-app] #13353 not #11792
[mk-app] #13354 or #13350 #13353 #13351
[mk-app] #13355 not #13354
[mk-app] #13356 and #11771 #11792 #13352
[inst-discovered] theory-solving 0x0 basic# ; #13356
[mk-app] #13357 = #13356 #13355
[instance] 0x0 #13357
[attach-enode] #13357 0
[end-of-instance]
[mk-app] #13356 or #6411 #13355
[mk-app] #13357 not #13344
[mk-app] #13358 not #13356
[mk-app] #13359 or #181 #13357 #13358
[mk-app] #13360 not #13359
[mk-app] #13361 and #174 #13344 #13356
[inst-discovered] theory-solving 0x0 basic# ; #13361
[mk-app] #13362 = #13361 #13360
[instance] 0x0 #13362
[attach-enode] #13362 0
[end-of-instance]
[mk-app] #13361 or #11769 #13360
[inst-discovered] theory-solving 0x0 basic# ; #6406
[mk-app] #13362 = #6406 #6406
[instance] 0x0 #13362
[attach-enode] #13362 0
[end-of-instance]
[mk-app] #13362 not #6406
[mk-app] #13363 or #10297 #13362
[mk-app] #13364 not #13363
[inst-discovered] theory-solving 0x0 basic# ; #6407
[mk-app] #13365 = #6407 #13364
[instance] 0x0 #13365
[attach-enode] #13365 0
[end-of-instance]
[mk-app] #13365 = #13363 #6380
[mk-app] #13366 not #13365
[mk-app] #13367 = #6380 #13364
[inst-discovered] theory-solving 0x0 basic# ; #13367
[mk-app] #13368 = #13367 #13366
[instance] 0x0 #13368
[attach-enode] #13368 0
[end-of-instance]
[mk-app] #13364 not #13363
[inst-discovered] theory-solving 0x0 basic# ; #13366
[mk-app] #13364 = #13366 #13366
[instance] 0x0 #13364
[attach-enode] #13364 0
[end-of-instance]
[mk-app] #13364 not #6379
[mk-app] #13367 or #13325 #13364 #13365
[mk-app] #13368 not #13367
[mk-app] #13369 and #6311 #6379 #13366
[inst-discovered] theory-solving 0x0 basic# ; #13369
[mk-app] #13370 = #13369 #13368
[instance] 0x0 #13370
[attach-enode] #13370 0
[end-of-instance]
[mk-app] #13369 not #13368
[inst-discovered] theory-solving 0x0 basic# ; #13369
[mk-app] #13370 = #13369 #13367
[instance] 0x0 #13370
[attach-enode] #13370 0
[end-of-instance]
[mk-quant] #13368 user_core__cmp__PartialOrd__le_0 1 #6390 #13367
[attach-var-names] #13368 (|o$| ; |Poly|)
[mk-app] #13366 not #13368
[mk-app] #13369 or #6411 #13366
[mk-app] #13370 not #13369
[mk-app] #13371 and #6358 #13368
[inst-discovered] theory-solving 0x0 basic# ; #13371
[mk-app] #13372 = #13371 #13370
[instance] 0x0 #13372
[attach-enode] #13372 0
[end-of-instance]
[mk-app] #13371 or #6359 #181 #13357 #13370
[inst-discovered] theory-solving 0x0 basic# ; #13371
[mk-app] #13372 = #13371 #13371
[instance] 0x0 #13372
[attach-enode] #13372 0
[end-of-instance]
[mk-app] #13372 not #13361
[mk-app] #13373 not #13371
[mk-app] #13374 or #13372 #13373
[mk-app] #13375 not #13374
[mk-app] #13376 and #13361 #13371
[inst-discovered] theory-solving 0x0 basic# ; #13376
[mk-app] #13377 = #13376 #13375
[instance] 0x0 #13377
[attach-enode] #13377 0
[end-of-instance]
[mk-quant] #13376 internal_ens__core!cmp.PartialOrd.le._definition 8 #6395 #13375
[attach-var-names] #13376 (|r!| ; |Poly|) (|other!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #13352 or #10245 #10213
[mk-app] #13377 not #13352
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13378 = #2316 #13377
[instance] 0x0 #13378
[attach-enode] #13378 0
[end-of-instance]
[mk-app] #13378 not #13377
[inst-discovered] theory-solving 0x0 basic# ; #13378
[mk-app] #13379 = #13378 #13352
[instance] 0x0 #13379
[attach-enode] #13379 0
[end-of-instance]
[mk-app] #13378 or #10245 #10213 #6455
[mk-app] #13379 or #13352 #6455
[inst-discovered] theory-solving 0x0 basic# ; #13379
[mk-app] #13380 = #13379 #13378
[instance] 0x0 #13380
[attach-enode] #13380 0
[end-of-instance]
[mk-quant] #13379 internal_vstd!std_specs.iter.StepSpec.spec_is_lt.?_pre_post_definition 4 #6457 #13378
[attach-var-names] #13379 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13352 or #10245 #10213
[mk-app] #13377 not #13352
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13380 = #2316 #13377
[instance] 0x0 #13380
[attach-enode] #13380 0
[end-of-instance]
[mk-app] #13380 not #13377
[inst-discovered] theory-solving 0x0 basic# ; #13380
[mk-app] #13381 = #13380 #13352
[instance] 0x0 #13381
[attach-enode] #13381 0
[end-of-instance]
[mk-app] #13380 or #10245 #10213 #6462
[mk-app] #13381 or #13352 #6462
[inst-discovered] theory-solving 0x0 basic# ; #13381
[mk-app] #13382 = #13381 #13380
[instance] 0x0 #13382
[attach-enode] #13382 0
[end-of-instance]
[mk-quant] #13381 internal_vstd!std_specs.iter.StepSpec.spec_steps_between_int.?_pre_post_definition 4 #6464 #13380
[attach-var-names] #13381 (|end!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13352 or #10245 #208
[mk-app] #13377 not #13352
[inst-discovered] theory-solving 0x0 basic# ; #6468
[mk-app] #13382 = #6468 #13377
[instance] 0x0 #13382
[attach-enode] #13382 0
[end-of-instance]
[mk-app] #13382 not #13377
[inst-discovered] theory-solving 0x0 basic# ; #13382
[mk-app] #13383 = #13382 #13352
[instance] 0x0 #13383
[attach-enode] #13383 0
[end-of-instance]
[mk-app] #13382 or #10245 #208 #6471
[mk-app] #13383 or #13352 #6471
[inst-discovered] theory-solving 0x0 basic# ; #13383
[mk-app] #13384 = #13383 #13382
[instance] 0x0 #13384
[attach-enode] #13384 0
[end-of-instance]
[mk-quant] #13383 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked.?_pre_post_definition 4 #6473 #13382
[attach-var-names] #13383 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13352 or #10245 #192
[mk-app] #13377 not #13352
[inst-discovered] theory-solving 0x0 basic# ; #6478
[mk-app] #13384 = #6478 #13377
[instance] 0x0 #13384
[attach-enode] #13384 0
[end-of-instance]
[mk-app] #13384 not #13377
[inst-discovered] theory-solving 0x0 basic# ; #13384
[mk-app] #13385 = #13384 #13352
[instance] 0x0 #13385
[attach-enode] #13385 0
[end-of-instance]
[mk-app] #13384 or #10245 #192 #6480
[mk-app] #13385 or #13352 #6480
[inst-discovered] theory-solving 0x0 basic# ; #13385
[mk-app] #13386 = #13385 #13384
[instance] 0x0 #13386
[attach-enode] #13386 0
[end-of-instance]
[mk-quant] #13385 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked_int.?_pre_post_definition 4 #6482 #13384
[attach-var-names] #13385 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13352 or #3429 #2937
[mk-app] #13377 not #13352
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13386 = #5000 #13377
[instance] 0x0 #13386
[attach-enode] #13386 0
[end-of-instance]
[mk-app] #13386 not #13377
[inst-discovered] theory-solving 0x0 basic# ; #13386
[mk-app] #13387 = #13386 #13352
[instance] 0x0 #13387
[attach-enode] #13387 0
[end-of-instance]
[mk-app] #13386 or #3429 #2937 #2955
[mk-app] #13387 or #13352 #2955
[inst-discovered] theory-solving 0x0 basic# ; #13387
[mk-app] #13388 = #13387 #13386
[instance] 0x0 #13388
[attach-enode] #13388 0
[end-of-instance]
[mk-quant] #13387 internal_vstd__std_specs__iter__impl&__16_trait_impl_definition 2 #2958 #13386
[attach-var-names] #13387 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #13352 not #6587
[mk-app] #13377 not #6586
[mk-app] #13388 or #13352 #13377
[mk-app] #13389 not #13388
[inst-discovered] theory-solving 0x0 basic# ; #6588
[mk-app] #13390 = #6588 #13389
[instance] 0x0 #13390
[attach-enode] #13390 0
[end-of-instance]
[mk-app] #13390 or #6589 #13389
[mk-quant] #13391 user_vstd__std_specs__range__axiom_spec_range_next_u8_0 1 #6581 #13390
[attach-var-names] #13391 (|range!| ; |Poly|)
[mk-app] #13392 or #6592 #13391
[mk-app] #13393 not #6711
[mk-app] #13394 not #6710
[mk-app] #13395 or #13393 #13394
[mk-app] #13396 not #13395
[inst-discovered] theory-solving 0x0 basic# ; #6712
[mk-app] #13397 = #6712 #13396
[instance] 0x0 #13397
[attach-enode] #13397 0
[end-of-instance]
[mk-app] #13397 or #6713 #13396
[mk-quant] #13398 user_vstd__std_specs__range__axiom_spec_range_next_u16_0 1 #6705 #13397
[attach-var-names] #13398 (|range!| ; |Poly|)
[mk-app] #13399 or #6716 #13398
[mk-app] #13400 not #6835
[mk-app] #13401 not #6834
[mk-app] #13402 or #13400 #13401
[mk-app] #13403 not #13402
[inst-discovered] theory-solving 0x0 basic# ; #6836
[mk-app] #13404 = #6836 #13403
[instance] 0x0 #13404
[attach-enode] #13404 0
[end-of-instance]
[mk-app] #13404 or #6837 #13403
[mk-quant] #13405 user_vstd__std_specs__range__axiom_spec_range_next_u32_0 1 #6829 #13404
[attach-var-names] #13405 (|range!| ; |Poly|)
[mk-app] #13406 or #6840 #13405
[mk-app] #13407 not #6959
[mk-app] #13408 not #6958
[mk-app] #13409 or #13407 #13408
[mk-app] #13410 not #13409
[inst-discovered] theory-solving 0x0 basic# ; #6960
[mk-app] #13411 = #6960 #13410
[instance] 0x0 #13411
[attach-enode] #13411 0
[end-of-instance]
[mk-app] #13411 or #6961 #13410
[mk-quant] #13412 user_vstd__std_specs__range__axiom_spec_range_next_u64_0 1 #6953 #13411
[attach-var-names] #13412 (|range!| ; |Poly|)
[mk-app] #13413 or #6964 #13412
[mk-app] #13414 not #7082
[mk-app] #13415 not #7081
[mk-app] #13416 or #13414 #13415
[mk-app] #13417 not #13416
[inst-discovered] theory-solving 0x0 basic# ; #7083
[mk-app] #13418 = #7083 #13417
[instance] 0x0 #13418
[attach-enode] #13418 0
[end-of-instance]
[mk-app] #13418 or #7084 #13417
[mk-quant] #13419 user_vstd__std_specs__range__axiom_spec_range_next_u128_0 1 #7076 #13418
[attach-var-names] #13419 (|range!| ; |Poly|)
[mk-app] #13420 or #7087 #13419
[mk-app] #13421 not #7213
[mk-app] #13422 not #7212
[mk-app] #13423 or #13421 #13422
[mk-app] #13424 not #13423
[inst-discovered] theory-solving 0x0 basic# ; #7214
[mk-app] #13425 = #7214 #13424
[instance] 0x0 #13425
[attach-enode] #13425 0
[end-of-instance]
[mk-app] #13425 or #7215 #13424
[mk-quant] #13426 user_vstd__std_specs__range__axiom_spec_range_next_usize_0 1 #7207 #13425
[attach-var-names] #13426 (|range!| ; |Poly|)
[mk-app] #13427 or #7218 #13426
[mk-app] #13428 not #7337
[mk-app] #13429 not #7336
[mk-app] #13430 or #13428 #13429
[mk-app] #13431 not #13430
[inst-discovered] theory-solving 0x0 basic# ; #7338
[mk-app] #13432 = #7338 #13431
[instance] 0x0 #13432
[attach-enode] #13432 0
[end-of-instance]
[mk-app] #13432 or #7339 #13431
[mk-quant] #13433 user_vstd__std_specs__range__axiom_spec_range_next_i8_0 1 #7331 #13432
[attach-var-names] #13433 (|range!| ; |Poly|)
[mk-app] #13434 or #7342 #13433
[mk-app] #13435 not #7461
[mk-app] #13436 not #7460
[mk-app] #13437 or #13435 #13436
[mk-app] #13438 not #13437
[inst-discovered] theory-solving 0x0 basic# ; #7462
[mk-app] #13439 = #7462 #13438
[instance] 0x0 #13439
[attach-enode] #13439 0
[end-of-instance]
[mk-app] #13439 or #7463 #13438
[mk-quant] #13440 user_vstd__std_specs__range__axiom_spec_range_next_i16_0 1 #7455 #13439
[attach-var-names] #13440 (|range!| ; |Poly|)
[mk-app] #13441 or #7466 #13440
[mk-app] #13442 not #7585
[mk-app] #13443 not #7584
[mk-app] #13444 or #13442 #13443
[mk-app] #13445 not #13444
[inst-discovered] theory-solving 0x0 basic# ; #7586
[mk-app] #13446 = #7586 #13445
[instance] 0x0 #13446
[attach-enode] #13446 0
[end-of-instance]
[mk-app] #13446 or #7587 #13445
[mk-quant] #13447 user_vstd__std_specs__range__axiom_spec_range_next_i32_0 1 #7579 #13446
[attach-var-names] #13447 (|range!| ; |Poly|)
[mk-app] #13448 or #7590 #13447
[mk-app] #13449 not #7709
[mk-app] #13450 not #7708
[mk-app] #13451 or #13449 #13450
[mk-app] #13452 not #13451
[inst-discovered] theory-solving 0x0 basic# ; #7710
[mk-app] #13453 = #7710 #13452
[instance] 0x0 #13453
[attach-enode] #13453 0
[end-of-instance]
[mk-app] #13453 or #7711 #13452
[mk-quant] #13454 user_vstd__std_specs__range__axiom_spec_range_next_i64_0 1 #7703 #13453
[attach-var-names] #13454 (|range!| ; |Poly|)
[mk-app] #13455 or #7714 #13454
[mk-app] #13456 not #7833
[mk-app] #13457 not #7832
[mk-app] #13458 or #13456 #13457
[mk-app] #13459 not #13458
[inst-discovered] theory-solving 0x0 basic# ; #7834
[mk-app] #13460 = #7834 #13459
[instance] 0x0 #13460
[attach-enode] #13460 0
[end-of-instance]
[mk-app] #13460 or #7835 #13459
[mk-quant] #13461 user_vstd__std_specs__range__axiom_spec_range_next_i128_0 1 #7827 #13460
[attach-var-names] #13461 (|range!| ; |Poly|)
[mk-app] #13462 or #7838 #13461
[mk-app] #13463 not #7965
[mk-app] #13464 not #7964
[mk-app] #13465 or #13463 #13464
[mk-app] #13466 not #13465
[inst-discovered] theory-solving 0x0 basic# ; #7966
[mk-app] #13467 = #7966 #13466
[instance] 0x0 #13467
[attach-enode] #13467 0
[end-of-instance]
[mk-app] #13467 or #7967 #13466
[mk-quant] #13468 user_vstd__std_specs__range__axiom_spec_range_next_isize_0 1 #7959 #13467
[attach-var-names] #13468 (|range!| ; |Poly|)
[mk-app] #13469 or #7970 #13468
[mk-app] #13470 not #8084
[mk-app] #13471 not #8085
[mk-app] #13472 not #8087
[mk-app] #13473 or #13470 #13471 #13472
[mk-app] #13474 not #13473
[inst-discovered] theory-solving 0x0 basic# ; #8113
[mk-app] #13475 = #8113 #13474
[instance] 0x0 #13475
[attach-enode] #13475 0
[end-of-instance]
[mk-app] #13475 not #8078
[mk-app] #13476 not #8082
[mk-app] #13477 or #13475 #13476
[mk-app] #13478 not #13477
[inst-discovered] theory-solving 0x0 basic# ; #8083
[mk-app] #13479 = #8083 #13478
[instance] 0x0 #13479
[attach-enode] #13479 0
[end-of-instance]
[mk-app] #13479 if #8111 #13474 #13478
[mk-app] #13480 or #8105 #13479
[mk-app] #13481 not #8108
[mk-app] #13482 or #8105 #8111 #13481
[mk-app] #13483 not #13482
[inst-discovered] theory-solving 0x0 basic# ; #8116
[mk-app] #13484 = #8116 #13483
[instance] 0x0 #13484
[attach-enode] #13484 0
[end-of-instance]
[mk-app] #13484 not #13483
[inst-discovered] theory-solving 0x0 basic# ; #13484
[mk-app] #13485 = #13484 #13482
[instance] 0x0 #13485
[attach-enode] #13485 0
[end-of-instance]
[mk-app] #13483 not #8118
[mk-app] #13484 or #13483 #8120
[mk-app] #13485 not #13484
[inst-discovered] theory-solving 0x0 basic# ; #8124
[mk-app] #13486 = #8124 #13485
[instance] 0x0 #13486
[attach-enode] #13486 0
[end-of-instance]
[mk-app] #13486 or #8105 #8111 #13481 #13485
[mk-app] #13487 or #13482 #13485
[inst-discovered] theory-solving 0x0 basic# ; #13487
[mk-app] #13488 = #13487 #13486
[instance] 0x0 #13488
[attach-enode] #13488 0
[end-of-instance]
[mk-app] #13482 not #8056
[mk-app] #13487 not #8059
[mk-app] #13488 not #8106
[mk-app] #13489 not #8110
[mk-app] #13490 not #13480
[mk-app] #13491 not #13486
[mk-app] #13492 or #13482 #13487 #13488 #13489 #13490 #13491
[mk-app] #13493 not #13492
[mk-app] #13494 and #8056 #8059 #8106 #8110 #13480 #13486
[inst-discovered] theory-solving 0x0 basic# ; #13494
[mk-app] #13495 = #13494 #13493
[instance] 0x0 #13495
[attach-enode] #13495 0
[end-of-instance]
[mk-app] #13494 = #13492 #8054
[mk-app] #13495 not #13494
[mk-app] #13496 = #8054 #13493
[inst-discovered] theory-solving 0x0 basic# ; #13496
[mk-app] #13497 = #13496 #13495
[instance] 0x0 #13497
[attach-enode] #13497 0
[end-of-instance]
[mk-app] #13493 not #13492
[inst-discovered] theory-solving 0x0 basic# ; #13495
[mk-app] #13493 = #13495 #13495
[instance] 0x0 #13493
[attach-enode] #13493 0
[end-of-instance]
[mk-quant] #13493 internal_ens__core!iter.traits.iterator.Iterator.next._definition 4 #8103 #13495
[attach-var-names] #13493 (|ret!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13496 not #8137
[mk-app] #13497 not #8138
[mk-app] #13498 or #13496 #13497
[mk-app] #13499 not #13498
[inst-discovered] theory-solving 0x0 basic# ; #8139
[mk-app] #13500 = #8139 #13499
[instance] 0x0 #13500
[attach-enode] #13500 0
[end-of-instance]
[mk-app] #13500 not #13499
[inst-discovered] theory-solving 0x0 basic# ; #13500
[mk-app] #13501 = #13500 #13498
[instance] 0x0 #13501
[attach-enode] #13501 0
[end-of-instance]
[mk-app] #13500 not #8174
[mk-app] #13501 not #8175
[mk-app] #13502 not #8177
[mk-app] #13503 or #13500 #13501 #13502
[mk-app] #13504 not #13503
[inst-discovered] theory-solving 0x0 basic# ; #8205
[mk-app] #13505 = #8205 #13504
[instance] 0x0 #13505
[attach-enode] #13505 0
[end-of-instance]
[mk-app] #13505 not #8168
[mk-app] #13506 not #8172
[mk-app] #13507 or #13505 #13506
[mk-app] #13508 not #13507
[inst-discovered] theory-solving 0x0 basic# ; #8173
[mk-app] #13509 = #8173 #13508
[instance] 0x0 #13509
[attach-enode] #13509 0
[end-of-instance]
[mk-app] #13509 if #8203 #13504 #13508
[mk-app] #13510 or #8197 #13509
[mk-app] #13511 not #8200
[mk-app] #13512 or #8197 #8203 #13511
[mk-app] #13513 not #13512
[inst-discovered] theory-solving 0x0 basic# ; #8208
[mk-app] #13514 = #8208 #13513
[instance] 0x0 #13514
[attach-enode] #13514 0
[end-of-instance]
[mk-app] #13514 not #13513
[inst-discovered] theory-solving 0x0 basic# ; #13514
[mk-app] #13515 = #13514 #13512
[instance] 0x0 #13515
[attach-enode] #13515 0
[end-of-instance]
[mk-app] #13513 not #8210
[mk-app] #13514 or #13513 #8212
[mk-app] #13515 not #13514
[inst-discovered] theory-solving 0x0 basic# ; #8216
[mk-app] #13516 = #8216 #13515
[instance] 0x0 #13516
[attach-enode] #13516 0
[end-of-instance]
[mk-app] #13516 or #8197 #8203 #13511 #13515
[mk-app] #13517 or #13512 #13515
[inst-discovered] theory-solving 0x0 basic# ; #13517
[mk-app] #13518 = #13517 #13516
[instance] 0x0 #13518
[attach-enode] #13518 0
[end-of-instance]
[mk-app] #13512 not #8147
[mk-app] #13517 not #8198
[mk-app] #13518 not #8202
[mk-app] #13519 not #13510
[mk-app] #13520 not #13516
[mk-app] #13521 or #13512 #13517 #13518 #13519 #13520
[mk-app] #13522 not #13521
[mk-app] #13523 and #8147 #8198 #8202 #13510 #13516
[inst-discovered] theory-solving 0x0 basic# ; #13523
[mk-app] #13524 = #13523 #13522
[instance] 0x0 #13524
[attach-enode] #13524 0
[end-of-instance]
[mk-app] #13523 or #13496 #13497 #8220 #13522
[mk-app] #13524 or #13498 #8220 #13522
[inst-discovered] theory-solving 0x0 basic# ; #13524
[mk-app] #13525 = #13524 #13523
[instance] 0x0 #13525
[attach-enode] #13525 0
[end-of-instance]
[mk-quant] #13524 user_core__iter__traits__iterator__Iterator__next_1 4 #8195 #13523
[attach-var-names] #13524 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|ret$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #13498 not #8236
[mk-app] #13499 not #8237
[mk-app] #13525 or #13498 #13499
[mk-app] #13526 not #13525
[inst-discovered] theory-solving 0x0 basic# ; #8238
[mk-app] #13527 = #8238 #13526
[instance] 0x0 #13527
[attach-enode] #13527 0
[end-of-instance]
[mk-app] #13527 or #8244 #13526
[mk-app] #13528 not #8232
[mk-app] #13529 not #13527
[mk-app] #13530 or #13528 #13529
[mk-app] #13531 not #13530
[mk-app] #13532 and #8232 #13527
[inst-discovered] theory-solving 0x0 basic# ; #13532
[mk-app] #13533 = #13532 #13531
[instance] 0x0 #13533
[attach-enode] #13533 0
[end-of-instance]
[mk-app] #13532 = #13530 #8230
[mk-app] #13533 not #13532
[mk-app] #13534 = #8230 #13531
[inst-discovered] theory-solving 0x0 basic# ; #13534
[mk-app] #13535 = #13534 #13533
[instance] 0x0 #13535
[attach-enode] #13535 0
[end-of-instance]
[mk-app] #13531 not #13530
[inst-discovered] theory-solving 0x0 basic# ; #13533
[mk-app] #13531 = #13533 #13533
[instance] 0x0 #13531
[attach-enode] #13531 0
[end-of-instance]
[mk-quant] #13531 internal_ens__core!iter.traits.iterator.Iterator.rev._definition 4 #8242 #13533
[attach-var-names] #13531 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13534 or #10245 #192
[mk-app] #13535 not #13534
[inst-discovered] theory-solving 0x0 basic# ; #6478
[mk-app] #13536 = #6478 #13535
[instance] 0x0 #13536
[attach-enode] #13536 0
[end-of-instance]
[mk-app] #13536 not #13535
[inst-discovered] theory-solving 0x0 basic# ; #13536
[mk-app] #13537 = #13536 #13534
[instance] 0x0 #13537
[attach-enode] #13537 0
[end-of-instance]
[mk-app] #13536 or #10245 #192 #8250
[mk-app] #13537 or #13534 #8250
[inst-discovered] theory-solving 0x0 basic# ; #13537
[mk-app] #13538 = #13537 #13536
[instance] 0x0 #13538
[attach-enode] #13538 0
[end-of-instance]
[mk-quant] #13537 internal_vstd!std_specs.iter.IteratorSpec.peek.?_pre_post_definition 4 #8252 #13536
[attach-var-names] #13537 (|index!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13534 or #10245 #192
[mk-app] #13535 not #13534
[inst-discovered] theory-solving 0x0 basic# ; #6478
[mk-app] #13538 = #6478 #13535
[instance] 0x0 #13538
[attach-enode] #13538 0
[end-of-instance]
[mk-app] #13538 not #13535
[inst-discovered] theory-solving 0x0 basic# ; #13538
[mk-app] #13539 = #13538 #13534
[instance] 0x0 #13539
[attach-enode] #13539 0
[end-of-instance]
[mk-app] #13538 or #10245 #192 #8257
[mk-app] #13539 or #13534 #8257
[inst-discovered] theory-solving 0x0 basic# ; #13539
[mk-app] #13540 = #13539 #13538
[instance] 0x0 #13540
[attach-enode] #13540 0
[end-of-instance]
[mk-quant] #13539 internal_vstd!std_specs.iter.DoubleEndedIteratorSpec.peek_back.?_pre_post_definition 4 #8259 #13538
[attach-var-names] #13539 (|index!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13534 not #8278
[mk-app] #13535 not #8279
[mk-app] #13540 or #5777 #13534 #13535
[mk-app] #13541 not #13540
[inst-discovered] theory-solving 0x0 basic# ; #8280
[mk-app] #13542 = #8280 #13541
[instance] 0x0 #13542
[attach-enode] #13542 0
[end-of-instance]
[mk-app] #13542 not #13541
[inst-discovered] theory-solving 0x0 basic# ; #13542
[mk-app] #13543 = #13542 #13540
[instance] 0x0 #13543
[attach-enode] #13543 0
[end-of-instance]
[mk-app] #13542 or #5777 #13534 #13535 #8283
[mk-app] #13543 or #13540 #8283
[inst-discovered] theory-solving 0x0 basic# ; #13543
[mk-app] #13544 = #13543 #13542
[instance] 0x0 #13544
[attach-enode] #13544 0
[end-of-instance]
[mk-quant] #13543 internal_vstd!std_specs.iter.impl&__0.obeys_prophetic_iter_laws.?_definition 3 #8285 #13542
[attach-var-names] #13543 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #13540 or #8291 #13543
[mk-app] #13541 not #8295
[mk-app] #13544 not #8296
[mk-app] #13545 or #5347 #13541 #13544
[mk-app] #13546 not #13545
[inst-discovered] theory-solving 0x0 basic# ; #8297
[mk-app] #13547 = #8297 #13546
[instance] 0x0 #13547
[attach-enode] #13547 0
[end-of-instance]
[mk-app] #13547 not #13546
[inst-discovered] theory-solving 0x0 basic# ; #13547
[mk-app] #13548 = #13547 #13545
[instance] 0x0 #13548
[attach-enode] #13548 0
[end-of-instance]
[mk-app] #13547 or #5347 #13541 #13544 #8301
[mk-app] #13548 or #13545 #8301
[inst-discovered] theory-solving 0x0 basic# ; #13548
[mk-app] #13549 = #13548 #13547
[instance] 0x0 #13549
[attach-enode] #13549 0
[end-of-instance]
[mk-quant] #13548 internal_vstd!std_specs.iter.impl&__0.peek.?_definition 4 #8303 #13547
[attach-var-names] #13548 (|index!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #13545 or #8309 #13548
[mk-app] #13546 or #3429 #2907
[mk-app] #13549 not #13546
[inst-discovered] theory-solving 0x0 basic# ; #4983
[mk-app] #13550 = #4983 #13549
[instance] 0x0 #13550
[attach-enode] #13550 0
[end-of-instance]
[mk-app] #13550 not #13549
[inst-discovered] theory-solving 0x0 basic# ; #13550
[mk-app] #13551 = #13550 #13546
[instance] 0x0 #13551
[attach-enode] #13551 0
[end-of-instance]
[mk-app] #13550 or #3429 #2907 #8311
[mk-app] #13551 or #13546 #8311
[inst-discovered] theory-solving 0x0 basic# ; #13551
[mk-app] #13552 = #13551 #13550
[instance] 0x0 #13552
[attach-enode] #13552 0
[end-of-instance]
[mk-quant] #13551 internal_core__iter__adapters__rev__impl&__1_trait_impl_definition 2 #8313 #13550
[attach-var-names] #13551 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #13546 or #3429 #2907 #2952
[mk-app] #13549 not #13546
[inst-discovered] theory-solving 0x0 basic# ; #8317
[mk-app] #13552 = #8317 #13549
[instance] 0x0 #13552
[attach-enode] #13552 0
[end-of-instance]
[mk-app] #13552 not #13549
[inst-discovered] theory-solving 0x0 basic# ; #13552
[mk-app] #13553 = #13552 #13546
[instance] 0x0 #13553
[attach-enode] #13553 0
[end-of-instance]
[mk-app] #13552 or #3429 #2907 #2952 #8318
[mk-app] #13553 or #13546 #8318
[inst-discovered] theory-solving 0x0 basic# ; #13553
[mk-app] #13554 = #13553 #13552
[instance] 0x0 #13554
[attach-enode] #13554 0
[end-of-instance]
[mk-quant] #13553 internal_vstd__std_specs__iter__impl&__0_trait_impl_definition 2 #8320 #13552
[attach-var-names] #13553 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #13546 or #5777 #5184
[mk-app] #13549 not #13546
[inst-discovered] theory-solving 0x0 basic# ; #8336
[mk-app] #13554 = #8336 #13549
[instance] 0x0 #13554
[attach-enode] #13554 0
[end-of-instance]
[mk-app] #13554 not #13549
[inst-discovered] theory-solving 0x0 basic# ; #13554
[mk-app] #13555 = #13554 #13546
[instance] 0x0 #13555
[attach-enode] #13555 0
[end-of-instance]
[mk-app] #13554 or #5777 #5184 #8346
[mk-app] #13555 or #13546 #8346
[inst-discovered] theory-solving 0x0 basic# ; #13555
[mk-app] #13556 = #13555 #13554
[instance] 0x0 #13556
[attach-enode] #13556 0
[end-of-instance]
[mk-quant] #13555 internal_vstd!seq_lib.impl&__0.reverse.?_definition 3 #8348 #13554
[attach-var-names] #13555 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13546 or #8354 #13555
[mk-app] #13549 not #8363
[mk-app] #13556 not #8365
[mk-app] #13557 or #5777 #13535 #13549 #13556
[mk-app] #13558 not #13557
[inst-discovered] theory-solving 0x0 basic# ; #8384
[mk-app] #13559 = #8384 #13558
[instance] 0x0 #13559
[attach-enode] #13559 0
[end-of-instance]
[mk-app] #13559 not #13558
[inst-discovered] theory-solving 0x0 basic# ; #13559
[mk-app] #13560 = #13559 #13557
[instance] 0x0 #13560
[attach-enode] #13560 0
[end-of-instance]
[mk-app] #13558 not #8369
[mk-app] #13559 not #8371
[mk-app] #13560 not #8385
[mk-app] #13561 not #8387
[mk-app] #13560 or #13558 #13559 #13561
[mk-app] #13562 not #13560
[inst-discovered] theory-solving 0x0 basic# ; #8388
[mk-app] #13563 = #8388 #13562
[instance] 0x0 #13563
[attach-enode] #13563 0
[end-of-instance]
[mk-app] #13563 or #2139 #5777 #13535 #13549 #13556 #13562
[mk-app] #13564 or #2139 #13557 #13562
[inst-discovered] theory-solving 0x0 basic# ; #13564
[mk-app] #13565 = #13564 #13563
[instance] 0x0 #13565
[attach-enode] #13565 0
[end-of-instance]
[mk-quant] #13557 user_vstd__std_specs__iter__rev_postcondition_0 3 #8226 #13563
[attach-var-names] #13557 (|i!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #13564 or #8392 #13557
[mk-app] #13565 or #5347 #3429 #12939
[mk-app] #13566 not #13565
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13567 = #3502 #13566
[instance] 0x0 #13567
[attach-enode] #13567 0
[end-of-instance]
[mk-app] #13567 not #13566
[inst-discovered] theory-solving 0x0 basic# ; #13567
[mk-app] #13568 = #13567 #13565
[instance] 0x0 #13568
[attach-enode] #13568 0
[end-of-instance]
[mk-app] #13567 or #5347 #3429 #12939 #8404
[mk-app] #13568 or #13565 #8404
[inst-discovered] theory-solving 0x0 basic# ; #13568
[mk-app] #13569 = #13568 #13567
[instance] 0x0 #13569
[attach-enode] #13569 0
[end-of-instance]
[mk-quant] #13568 internal_vstd__view__impl&__8_trait_impl_definition 4 #8406 #13567
[attach-var-names] #13568 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13565 not #8412
[mk-app] #13566 or #5471 #5777 #13565
[mk-app] #13569 not #13566
[inst-discovered] theory-solving 0x0 basic# ; #8421
[mk-app] #13570 = #8421 #13569
[instance] 0x0 #13570
[attach-enode] #13570 0
[end-of-instance]
[mk-app] #13570 not #13569
[inst-discovered] theory-solving 0x0 basic# ; #13570
[mk-app] #13571 = #13570 #13566
[instance] 0x0 #13571
[attach-enode] #13571 0
[end-of-instance]
[mk-app] #13569 or #8401 #5471 #5777 #13565 #8416
[mk-app] #13570 or #8401 #13566 #8416
[inst-discovered] theory-solving 0x0 basic# ; #13570
[mk-app] #13571 = #13570 #13569
[instance] 0x0 #13571
[attach-enode] #13571 0
[end-of-instance]
[mk-quant] #13566 user_vstd__std_specs__vec__axiom_spec_len_0 5 #8399 #13569
[attach-var-names] #13566 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13570 or #8425 #13566
[inst-discovered] theory-solving 0x0 basic# ; #5812
[mk-app] #13571 = #5812 #13235
[instance] 0x0 #13571
[attach-enode] #13571 0
[end-of-instance]
[mk-app] #13571 or #8436 #13235
[mk-app] #13572 = #8428 #13571
[mk-quant] #13573 internal_req__vstd!std_specs.vec.VecAdditionalSpecFns.spec_index._definition 6 #8432 #13572
[attach-var-names] #13573 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13574 or #10843 #192
[mk-app] #13575 not #13574
[inst-discovered] theory-solving 0x0 basic# ; #5806
[mk-app] #13576 = #5806 #13575
[instance] 0x0 #13576
[attach-enode] #13576 0
[end-of-instance]
[mk-app] #13576 not #13575
[inst-discovered] theory-solving 0x0 basic# ; #13576
[mk-app] #13577 = #13576 #13574
[instance] 0x0 #13577
[attach-enode] #13577 0
[end-of-instance]
[mk-app] #13576 or #10843 #192 #8435
[mk-app] #13577 or #13574 #8435
[inst-discovered] theory-solving 0x0 basic# ; #13577
[mk-app] #13578 = #13577 #13576
[instance] 0x0 #13578
[attach-enode] #13578 0
[end-of-instance]
[mk-quant] #13577 internal_vstd!std_specs.vec.VecAdditionalSpecFns.spec_index.?_pre_post_definition 6 #8441 #13576
[attach-var-names] #13577 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13574 not #8447
[mk-app] #13575 or #1589 #5347 #13574
[mk-app] #13578 not #13575
[inst-discovered] theory-solving 0x0 basic# ; #8448
[mk-app] #13579 = #8448 #13578
[instance] 0x0 #13579
[attach-enode] #13579 0
[end-of-instance]
[mk-app] #13579 not #13578
[inst-discovered] theory-solving 0x0 basic# ; #13579
[mk-app] #13580 = #13579 #13575
[instance] 0x0 #13580
[attach-enode] #13580 0
[end-of-instance]
[mk-app] #13579 or #1589 #5347 #13574 #8453
[mk-app] #13580 or #13575 #8453
[inst-discovered] theory-solving 0x0 basic# ; #13580
[mk-app] #13581 = #13580 #13579
[instance] 0x0 #13581
[attach-enode] #13581 0
[end-of-instance]
[mk-quant] #13580 internal_vstd!std_specs.vec.impl&__0.spec_index.?_definition 6 #8455 #13579
[attach-var-names] #13580 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13575 or #8461 #13580
[mk-app] #13578 or #5347 #3429 #12939
[mk-app] #13581 not #13578
[inst-discovered] theory-solving 0x0 basic# ; #3502
[mk-app] #13582 = #3502 #13581
[instance] 0x0 #13582
[attach-enode] #13582 0
[end-of-instance]
[mk-app] #13582 not #13581
[inst-discovered] theory-solving 0x0 basic# ; #13582
[mk-app] #13583 = #13582 #13578
[instance] 0x0 #13583
[attach-enode] #13583 0
[end-of-instance]
[mk-app] #13582 or #5347 #3429 #12939 #8463
[mk-app] #13583 or #13578 #8463
[inst-discovered] theory-solving 0x0 basic# ; #13583
[mk-app] #13584 = #13583 #13582
[instance] 0x0 #13584
[attach-enode] #13584 0
[end-of-instance]
[mk-quant] #13583 internal_vstd__std_specs__vec__impl&__0_trait_impl_definition 4 #8465 #13582
[attach-var-names] #13583 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13578 not #8471
[mk-app] #13581 or #13578 #192
[mk-app] #13584 not #13581
[inst-discovered] theory-solving 0x0 basic# ; #8472
[mk-app] #13585 = #8472 #13584
[instance] 0x0 #13585
[attach-enode] #13585 0
[end-of-instance]
[mk-app] #13585 not #13584
[inst-discovered] theory-solving 0x0 basic# ; #13585
[mk-app] #13586 = #13585 #13581
[instance] 0x0 #13586
[attach-enode] #13586 0
[end-of-instance]
[mk-app] #13585 or #5347 #13082 #8488
[mk-app] #13586 not #13585
[inst-discovered] theory-solving 0x0 basic# ; #8492
[mk-app] #13587 = #8492 #13586
[instance] 0x0 #13587
[attach-enode] #13587 0
[end-of-instance]
[mk-app] #13587 not #13586
[inst-discovered] theory-solving 0x0 basic# ; #13587
[mk-app] #13588 = #13587 #13585
[instance] 0x0 #13588
[attach-enode] #13588 0
[end-of-instance]
[mk-app] #13586 or #13578 #192 #5347 #13082 #8488 #8480
[mk-app] #13587 or #13581 #13585 #8480
[inst-discovered] theory-solving 0x0 basic# ; #13587
[mk-app] #13588 = #13587 #13586
[instance] 0x0 #13588
[attach-enode] #13588 0
[end-of-instance]
[mk-quant] #13585 user_vstd__std_specs__vec__axiom_vec_index_decreases_0 4 #8483 #13586
[attach-var-names] #13585 (|i!| ; |Poly|) (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13581 or #8486 #13585
[mk-app] #13584 or #13578 #192
[mk-app] #13587 not #13584
[inst-discovered] theory-solving 0x0 basic# ; #8472
[mk-app] #13588 = #8472 #13587
[instance] 0x0 #13588
[attach-enode] #13588 0
[end-of-instance]
[mk-app] #13588 not #13587
[inst-discovered] theory-solving 0x0 basic# ; #13588
[mk-app] #13589 = #13588 #13584
[instance] 0x0 #13589
[attach-enode] #13589 0
[end-of-instance]
[mk-app] #13588 or #13082 #8488
[mk-app] #13589 not #13588
[inst-discovered] theory-solving 0x0 basic# ; #8509
[mk-app] #13590 = #8509 #13589
[instance] 0x0 #13590
[attach-enode] #13590 0
[end-of-instance]
[mk-app] #13590 not #13589
[inst-discovered] theory-solving 0x0 basic# ; #13590
[mk-app] #13591 = #13590 #13588
[instance] 0x0 #13591
[attach-enode] #13591 0
[end-of-instance]
[mk-app] #13589 or #13578 #192 #5347 #13082 #8488 #8510 #8499
[mk-app] #13590 or #13584 #5347 #13588 #8510 #8499
[inst-discovered] theory-solving 0x0 basic# ; #13590
[mk-app] #13591 = #13590 #13589
[instance] 0x0 #13591
[attach-enode] #13591 0
[end-of-instance]
[mk-quant] #13588 user_vstd__std_specs__vec__axiom_vec_has_resolved_0 4 #8504 #13589
[attach-var-names] #13588 (|i!| ; |Poly|) (|vec!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13584 or #8507 #13588
[inst-discovered] theory-solving 0x0 basic# ; #8527
[mk-app] #13587 = #8527 #8527
[instance] 0x0 #13587
[attach-enode] #13587 0
[end-of-instance]
[mk-app] #13587 or #3429 #3101
[mk-app] #13590 not #13587
[inst-discovered] theory-solving 0x0 basic# ; #3641
[mk-app] #13591 = #3641 #13590
[instance] 0x0 #13591
[attach-enode] #13591 0
[end-of-instance]
[mk-app] #13591 not #13590
[inst-discovered] theory-solving 0x0 basic# ; #13591
[mk-app] #13592 = #13591 #13587
[instance] 0x0 #13592
[attach-enode] #13592 0
[end-of-instance]
[mk-app] #13591 or #3429 #3101 #3104
[mk-app] #13592 or #13587 #3104
[inst-discovered] theory-solving 0x0 basic# ; #13592
[mk-app] #13593 = #13592 #13591
[instance] 0x0 #13593
[attach-enode] #13593 0
[end-of-instance]
[mk-quant] #13592 internal_vstd__std_specs__nonzero__impl&__17_trait_impl_definition 2 #3107 #13591
[attach-var-names] #13592 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #13587 or #3429 #3101
[mk-app] #13590 not #13587
[inst-discovered] theory-solving 0x0 basic# ; #3641
[mk-app] #13593 = #3641 #13590
[instance] 0x0 #13593
[attach-enode] #13593 0
[end-of-instance]
[mk-app] #13593 not #13590
[inst-discovered] theory-solving 0x0 basic# ; #13593
[mk-app] #13594 = #13593 #13587
[instance] 0x0 #13594
[attach-enode] #13594 0
[end-of-instance]
[mk-app] #13593 or #3429 #3101 #8541
[mk-app] #13594 or #13587 #8541
[inst-discovered] theory-solving 0x0 basic# ; #13594
[mk-app] #13595 = #13594 #13593
[instance] 0x0 #13595
[attach-enode] #13595 0
[end-of-instance]
[mk-quant] #13594 internal_vstd__std_specs__nonzero__impl&__11_trait_impl_definition 2 #8543 #13593
[attach-var-names] #13594 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13587 not #8550
[mk-app] #13590 or #5777 #13587
[mk-app] #13595 not #13590
[inst-discovered] theory-solving 0x0 basic# ; #8551
[mk-app] #13596 = #8551 #13595
[instance] 0x0 #13596
[attach-enode] #13596 0
[end-of-instance]
[mk-app] #13596 not #13595
[inst-discovered] theory-solving 0x0 basic# ; #13596
[mk-app] #13597 = #13596 #13590
[instance] 0x0 #13597
[attach-enode] #13597 0
[end-of-instance]
[mk-app] #13596 or #8563 #5777 #13587 #8555
[mk-app] #13597 or #8563 #13590 #8555
[inst-discovered] theory-solving 0x0 basic# ; #13597
[mk-app] #13598 = #13597 #13596
[instance] 0x0 #13598
[attach-enode] #13598 0
[end-of-instance]
[mk-quant] #13597 user_vstd__std_specs__nonzero__axiom_nonzero_is_not_zero_0 3 #8558 #13596
[attach-var-names] #13597 (|n!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13590 or #8565 #13597
[mk-app] #13595 not #8588
[mk-app] #13598 or #13595 #2827
[mk-app] #13599 not #13598
[inst-discovered] theory-solving 0x0 basic# ; #8589
[mk-app] #13600 = #8589 #13599
[instance] 0x0 #13600
[attach-enode] #13600 0
[end-of-instance]
[mk-app] #13600 not #13599
[inst-discovered] theory-solving 0x0 basic# ; #13600
[mk-app] #13601 = #13600 #13598
[instance] 0x0 #13601
[attach-enode] #13601 0
[end-of-instance]
[mk-app] #13600 or #13595 #2827 #8590
[mk-app] #13601 or #13598 #8590
[inst-discovered] theory-solving 0x0 basic# ; #13601
[mk-app] #13602 = #13601 #13600
[instance] 0x0 #13602
[attach-enode] #13602 0
[end-of-instance]
[mk-quant] #13601 internal_crate__impl_tuple&__Clone2_trait_impl_definition 4 #8592 #13600
[attach-var-names] #13601 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #13598 not #8597
[mk-app] #13599 or #13598 #2834
[mk-app] #13602 not #13599
[inst-discovered] theory-solving 0x0 basic# ; #8598
[mk-app] #13603 = #8598 #13602
[instance] 0x0 #13603
[attach-enode] #13603 0
[end-of-instance]
[mk-app] #13603 not #13602
[inst-discovered] theory-solving 0x0 basic# ; #13603
[mk-app] #13604 = #13603 #13599
[instance] 0x0 #13604
[attach-enode] #13604 0
[end-of-instance]
[mk-app] #13603 or #13598 #2834 #8599
[mk-app] #13604 or #13599 #8599
[inst-discovered] theory-solving 0x0 basic# ; #13604
[mk-app] #13605 = #13604 #13603
[instance] 0x0 #13605
[attach-enode] #13605 0
[end-of-instance]
[mk-quant] #13604 internal_crate__impl_tuple&__Copy2_trait_impl_definition 4 #8601 #13603
[attach-var-names] #13604 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #13599 or #10843 #10213
[mk-app] #13602 not #13599
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13605 = #2596 #13602
[instance] 0x0 #13605
[attach-enode] #13605 0
[end-of-instance]
[mk-app] #13605 not #13602
[inst-discovered] theory-solving 0x0 basic# ; #13605
[mk-app] #13606 = #13605 #13599
[instance] 0x0 #13606
[attach-enode] #13606 0
[end-of-instance]
[mk-app] #13605 or #10843 #10213 #8613
[mk-app] #13606 or #13599 #8613
[inst-discovered] theory-solving 0x0 basic# ; #13606
[mk-app] #13607 = #13606 #13605
[instance] 0x0 #13607
[attach-enode] #13607 0
[end-of-instance]
[mk-quant] #13606 internal_g1!g.Index.index_req.?_pre_post_definition 6 #8615 #13605
[attach-var-names] #13606 (|i!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13599 or #10843 #10213
[mk-app] #13602 not #13599
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13607 = #2596 #13602
[instance] 0x0 #13607
[attach-enode] #13607 0
[end-of-instance]
[mk-app] #13607 not #13602
[inst-discovered] theory-solving 0x0 basic# ; #13607
[mk-app] #13608 = #13607 #13599
[instance] 0x0 #13608
[attach-enode] #13608 0
[end-of-instance]
[mk-app] #13607 or #10843 #10213 #8621
[mk-app] #13608 or #13599 #8621
[inst-discovered] theory-solving 0x0 basic# ; #13608
[mk-app] #13609 = #13608 #13607
[instance] 0x0 #13609
[attach-enode] #13609 0
[end-of-instance]
[mk-quant] #13608 internal_g1!g.Index.index_val.?_pre_post_definition 6 #8623 #13607
[attach-var-names] #13608 (|i!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13599 not #8627
[mk-app] #13602 not #8629
[mk-app] #13609 or #13599 #10243 #13602 #1636
[mk-app] #13610 not #13609
[inst-discovered] theory-solving 0x0 basic# ; #8630
[mk-app] #13611 = #8630 #13610
[instance] 0x0 #13611
[attach-enode] #13611 0
[end-of-instance]
[mk-app] #13611 not #13610
[inst-discovered] theory-solving 0x0 basic# ; #13611
[mk-app] #13612 = #13611 #13609
[instance] 0x0 #13612
[attach-enode] #13612 0
[end-of-instance]
[mk-app] #13611 or #13599 #10243 #13602 #1636 #8632
[mk-app] #13612 or #13609 #8632
[inst-discovered] theory-solving 0x0 basic# ; #13612
[mk-app] #13613 = #13612 #13611
[instance] 0x0 #13613
[attach-enode] #13613 0
[end-of-instance]
[mk-quant] #13612 internal_g1!g.IndexMut.index_post.?_pre_post_definition 8 #8634 #13611
[attach-var-names] #13612 (|post!| ; |Poly|) (|v!| ; |Poly|) (|i!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13609 not #8645
[mk-app] #13610 or #2139 #13609
[mk-app] #13613 not #13610
[inst-discovered] theory-solving 0x0 basic# ; #8646
[mk-app] #13614 = #8646 #13613
[instance] 0x0 #13614
[attach-enode] #13614 0
[end-of-instance]
[mk-app] #13614 = #13610 #8643
[mk-app] #13615 not #13614
[mk-app] #13616 = #8643 #13613
[inst-discovered] theory-solving 0x0 basic# ; #13616
[mk-app] #13617 = #13616 #13615
[instance] 0x0 #13617
[attach-enode] #13617 0
[end-of-instance]
[mk-app] #13613 not #13610
[inst-discovered] theory-solving 0x0 basic# ; #13615
[mk-app] #13613 = #13615 #13615
[instance] 0x0 #13613
[attach-enode] #13613 0
[end-of-instance]
[mk-quant] #13613 internal_ens__g1!g.Zero.zero._definition 3 #8648 #13615
[attach-var-names] #13613 (|r!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13616 not #8656
[mk-app] #13617 or #2139 #13616
[mk-app] #13618 not #13617
[inst-discovered] theory-solving 0x0 basic# ; #8657
[mk-app] #13619 = #8657 #13618
[instance] 0x0 #13619
[attach-enode] #13619 0
[end-of-instance]
[mk-app] #13619 = #13617 #8654
[mk-app] #13620 not #13619
[mk-app] #13621 = #8654 #13618
[inst-discovered] theory-solving 0x0 basic# ; #13621
[mk-app] #13622 = #13621 #13620
[instance] 0x0 #13622
[attach-enode] #13622 0
[end-of-instance]
[mk-app] #13618 not #13617
[inst-discovered] theory-solving 0x0 basic# ; #13620
[mk-app] #13618 = #13620 #13620
[instance] 0x0 #13618
[attach-enode] #13618 0
[end-of-instance]
[mk-quant] #13618 internal_ens__g1!g.One.one._definition 3 #8659 #13620
[attach-var-names] #13618 (|r!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13621 or #10843 #10213
[mk-app] #13622 not #13621
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13623 = #2596 #13622
[instance] 0x0 #13623
[attach-enode] #13623 0
[end-of-instance]
[mk-app] #13623 not #13622
[inst-discovered] theory-solving 0x0 basic# ; #13623
[mk-app] #13624 = #13623 #13621
[instance] 0x0 #13624
[attach-enode] #13624 0
[end-of-instance]
[mk-app] #13623 or #10843 #10213 #8662
[mk-app] #13624 or #13621 #8662
[inst-discovered] theory-solving 0x0 basic# ; #13624
[mk-app] #13625 = #13624 #13623
[instance] 0x0 #13625
[attach-enode] #13625 0
[end-of-instance]
[mk-quant] #13624 internal_vstd!std_specs.ops.AddSpec.add_req.?_pre_post_definition 6 #8664 #13623
[attach-var-names] #13624 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13621 or #10843 #10213
[mk-app] #13622 not #13621
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13625 = #2596 #13622
[instance] 0x0 #13625
[attach-enode] #13625 0
[end-of-instance]
[mk-app] #13625 not #13622
[inst-discovered] theory-solving 0x0 basic# ; #13625
[mk-app] #13626 = #13625 #13621
[instance] 0x0 #13626
[attach-enode] #13626 0
[end-of-instance]
[mk-app] #13625 or #10843 #10213 #8674
[mk-app] #13626 or #13621 #8674
[inst-discovered] theory-solving 0x0 basic# ; #13626
[mk-app] #13627 = #13626 #13625
[instance] 0x0 #13627
[attach-enode] #13627 0
[end-of-instance]
[mk-quant] #13626 internal_vstd!std_specs.ops.AddSpec.add_spec.?_pre_post_definition 6 #8676 #13625
[attach-var-names] #13626 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13621 not #8693
[mk-app] #13622 not #8704
[mk-app] #13627 or #13621 #13622
[mk-app] #13628 not #13627
[inst-discovered] theory-solving 0x0 basic# ; #8705
[mk-app] #13629 = #8705 #13628
[instance] 0x0 #13629
[attach-enode] #13629 0
[end-of-instance]
[mk-app] #13629 = #13627 #8691
[mk-app] #13630 not #13629
[mk-app] #13631 = #8691 #13628
[inst-discovered] theory-solving 0x0 basic# ; #13631
[mk-app] #13632 = #13631 #13630
[instance] 0x0 #13632
[attach-enode] #13632 0
[end-of-instance]
[mk-app] #13628 not #13627
[inst-discovered] theory-solving 0x0 basic# ; #13630
[mk-app] #13628 = #13630 #13630
[instance] 0x0 #13628
[attach-enode] #13628 0
[end-of-instance]
[mk-quant] #13628 internal_ens__core!ops.arith.Add.add._definition 7 #8701 #13630
[attach-var-names] #13628 (|ret!| ; |Poly|) (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13631 or #10843 #10213
[mk-app] #13632 not #13631
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13633 = #2596 #13632
[instance] 0x0 #13633
[attach-enode] #13633 0
[end-of-instance]
[mk-app] #13633 not #13632
[inst-discovered] theory-solving 0x0 basic# ; #13633
[mk-app] #13634 = #13633 #13631
[instance] 0x0 #13634
[attach-enode] #13634 0
[end-of-instance]
[mk-app] #13633 or #10843 #10213 #8709
[mk-app] #13634 or #13631 #8709
[inst-discovered] theory-solving 0x0 basic# ; #13634
[mk-app] #13635 = #13634 #13633
[instance] 0x0 #13635
[attach-enode] #13635 0
[end-of-instance]
[mk-quant] #13634 internal_vstd!std_specs.ops.SubSpec.sub_req.?_pre_post_definition 6 #8711 #13633
[attach-var-names] #13634 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13631 or #10843 #10213
[mk-app] #13632 not #13631
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13635 = #2596 #13632
[instance] 0x0 #13635
[attach-enode] #13635 0
[end-of-instance]
[mk-app] #13635 not #13632
[inst-discovered] theory-solving 0x0 basic# ; #13635
[mk-app] #13636 = #13635 #13631
[instance] 0x0 #13636
[attach-enode] #13636 0
[end-of-instance]
[mk-app] #13635 or #10843 #10213 #8721
[mk-app] #13636 or #13631 #8721
[inst-discovered] theory-solving 0x0 basic# ; #13636
[mk-app] #13637 = #13636 #13635
[instance] 0x0 #13637
[attach-enode] #13637 0
[end-of-instance]
[mk-quant] #13636 internal_vstd!std_specs.ops.SubSpec.sub_spec.?_pre_post_definition 6 #8723 #13635
[attach-var-names] #13636 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13631 not #8740
[mk-app] #13632 not #8751
[mk-app] #13637 or #13631 #13632
[mk-app] #13638 not #13637
[inst-discovered] theory-solving 0x0 basic# ; #8752
[mk-app] #13639 = #8752 #13638
[instance] 0x0 #13639
[attach-enode] #13639 0
[end-of-instance]
[mk-app] #13639 = #13637 #8738
[mk-app] #13640 not #13639
[mk-app] #13641 = #8738 #13638
[inst-discovered] theory-solving 0x0 basic# ; #13641
[mk-app] #13642 = #13641 #13640
[instance] 0x0 #13642
[attach-enode] #13642 0
[end-of-instance]
[mk-app] #13638 not #13637
[inst-discovered] theory-solving 0x0 basic# ; #13640
[mk-app] #13638 = #13640 #13640
[instance] 0x0 #13638
[attach-enode] #13638 0
[end-of-instance]
[mk-quant] #13638 internal_ens__core!ops.arith.Sub.sub._definition 7 #8748 #13640
[attach-var-names] #13638 (|ret!| ; |Poly|) (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13641 or #10843 #10213
[mk-app] #13642 not #13641
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13643 = #2596 #13642
[instance] 0x0 #13643
[attach-enode] #13643 0
[end-of-instance]
[mk-app] #13643 not #13642
[inst-discovered] theory-solving 0x0 basic# ; #13643
[mk-app] #13644 = #13643 #13641
[instance] 0x0 #13644
[attach-enode] #13644 0
[end-of-instance]
[mk-app] #13643 or #10843 #10213 #8756
[mk-app] #13644 or #13641 #8756
[inst-discovered] theory-solving 0x0 basic# ; #13644
[mk-app] #13645 = #13644 #13643
[instance] 0x0 #13645
[attach-enode] #13645 0
[end-of-instance]
[mk-quant] #13644 internal_vstd!std_specs.ops.MulSpec.mul_req.?_pre_post_definition 6 #8758 #13643
[attach-var-names] #13644 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13641 or #10843 #10213
[mk-app] #13642 not #13641
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13645 = #2596 #13642
[instance] 0x0 #13645
[attach-enode] #13645 0
[end-of-instance]
[mk-app] #13645 not #13642
[inst-discovered] theory-solving 0x0 basic# ; #13645
[mk-app] #13646 = #13645 #13641
[instance] 0x0 #13646
[attach-enode] #13646 0
[end-of-instance]
[mk-app] #13645 or #10843 #10213 #8768
[mk-app] #13646 or #13641 #8768
[inst-discovered] theory-solving 0x0 basic# ; #13646
[mk-app] #13647 = #13646 #13645
[instance] 0x0 #13647
[attach-enode] #13647 0
[end-of-instance]
[mk-quant] #13646 internal_vstd!std_specs.ops.MulSpec.mul_spec.?_pre_post_definition 6 #8770 #13645
[attach-var-names] #13646 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13641 not #8787
[mk-app] #13642 not #8798
[mk-app] #13647 or #13641 #13642
[mk-app] #13648 not #13647
[inst-discovered] theory-solving 0x0 basic# ; #8799
[mk-app] #13649 = #8799 #13648
[instance] 0x0 #13649
[attach-enode] #13649 0
[end-of-instance]
[mk-app] #13649 = #13647 #8785
[mk-app] #13650 not #13649
[mk-app] #13651 = #8785 #13648
[inst-discovered] theory-solving 0x0 basic# ; #13651
[mk-app] #13652 = #13651 #13650
[instance] 0x0 #13652
[attach-enode] #13652 0
[end-of-instance]
[mk-app] #13648 not #13647
[inst-discovered] theory-solving 0x0 basic# ; #13650
[mk-app] #13648 = #13650 #13650
[instance] 0x0 #13648
[attach-enode] #13648 0
[end-of-instance]
[mk-quant] #13648 internal_ens__core!ops.arith.Mul.mul._definition 7 #8795 #13650
[attach-var-names] #13648 (|ret!| ; |Poly|) (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13651 or #10843 #10213
[mk-app] #13652 not #13651
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13653 = #2596 #13652
[instance] 0x0 #13653
[attach-enode] #13653 0
[end-of-instance]
[mk-app] #13653 not #13652
[inst-discovered] theory-solving 0x0 basic# ; #13653
[mk-app] #13654 = #13653 #13651
[instance] 0x0 #13654
[attach-enode] #13654 0
[end-of-instance]
[mk-app] #13653 or #10843 #10213 #8803
[mk-app] #13654 or #13651 #8803
[inst-discovered] theory-solving 0x0 basic# ; #13654
[mk-app] #13655 = #13654 #13653
[instance] 0x0 #13655
[attach-enode] #13655 0
[end-of-instance]
[mk-quant] #13654 internal_vstd!std_specs.ops.DivSpec.div_req.?_pre_post_definition 6 #8805 #13653
[attach-var-names] #13654 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13651 or #10843 #10213
[mk-app] #13652 not #13651
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13655 = #2596 #13652
[instance] 0x0 #13655
[attach-enode] #13655 0
[end-of-instance]
[mk-app] #13655 not #13652
[inst-discovered] theory-solving 0x0 basic# ; #13655
[mk-app] #13656 = #13655 #13651
[instance] 0x0 #13656
[attach-enode] #13656 0
[end-of-instance]
[mk-app] #13655 or #10843 #10213 #8815
[mk-app] #13656 or #13651 #8815
[inst-discovered] theory-solving 0x0 basic# ; #13656
[mk-app] #13657 = #13656 #13655
[instance] 0x0 #13657
[attach-enode] #13657 0
[end-of-instance]
[mk-quant] #13656 internal_vstd!std_specs.ops.DivSpec.div_spec.?_pre_post_definition 6 #8817 #13655
[attach-var-names] #13656 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13651 not #8853
[mk-app] #13652 not #8864
[mk-app] #13657 or #13651 #13652
[mk-app] #13658 not #13657
[inst-discovered] theory-solving 0x0 basic# ; #8865
[mk-app] #13659 = #8865 #13658
[instance] 0x0 #13659
[attach-enode] #13659 0
[end-of-instance]
[mk-app] #13659 = #13657 #8851
[mk-app] #13660 not #13659
[mk-app] #13661 = #8851 #13658
[inst-discovered] theory-solving 0x0 basic# ; #13661
[mk-app] #13662 = #13661 #13660
[instance] 0x0 #13662
[attach-enode] #13662 0
[end-of-instance]
[mk-app] #13658 not #13657
[inst-discovered] theory-solving 0x0 basic# ; #13660
[mk-app] #13658 = #13660 #13660
[instance] 0x0 #13658
[attach-enode] #13658 0
[end-of-instance]
[mk-quant] #13658 internal_ens__core!ops.arith.Neg.neg._definition 4 #8861 #13660
[attach-var-names] #13658 (|ret!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13661 or #10843 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13663 = #2596 #13662
[instance] 0x0 #13663
[attach-enode] #13663 0
[end-of-instance]
[mk-app] #13663 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13663
[mk-app] #13664 = #13663 #13661
[instance] 0x0 #13664
[attach-enode] #13664 0
[end-of-instance]
[mk-app] #13663 or #10843 #10213 #8869
[mk-app] #13664 or #13661 #8869
[inst-discovered] theory-solving 0x0 basic# ; #13664
[mk-app] #13665 = #13664 #13663
[instance] 0x0 #13665
[attach-enode] #13665 0
[end-of-instance]
[mk-quant] #13664 internal_vstd!std_specs.ops.AddAssignSpec.add_assign_req.?_pre_post_definition 6 #8871 #13663
[attach-var-names] #13664 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13661 or #10843 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13665 = #2596 #13662
[instance] 0x0 #13665
[attach-enode] #13665 0
[end-of-instance]
[mk-app] #13665 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13665
[mk-app] #13666 = #13665 #13661
[instance] 0x0 #13666
[attach-enode] #13666 0
[end-of-instance]
[mk-app] #13665 or #10843 #10213 #8880
[mk-app] #13666 or #13661 #8880
[inst-discovered] theory-solving 0x0 basic# ; #13666
[mk-app] #13667 = #13666 #13665
[instance] 0x0 #13667
[attach-enode] #13667 0
[end-of-instance]
[mk-quant] #13666 internal_vstd!std_specs.ops.AddAssignSpec.add_assign_spec.?_pre_post_definition 6 #8882 #13665
[attach-var-names] #13666 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13661 or #10843 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13667 = #2596 #13662
[instance] 0x0 #13667
[attach-enode] #13667 0
[end-of-instance]
[mk-app] #13667 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13667
[mk-app] #13668 = #13667 #13661
[instance] 0x0 #13668
[attach-enode] #13668 0
[end-of-instance]
[mk-app] #13667 or #10843 #10213 #8912
[mk-app] #13668 or #13661 #8912
[inst-discovered] theory-solving 0x0 basic# ; #13668
[mk-app] #13669 = #13668 #13667
[instance] 0x0 #13669
[attach-enode] #13669 0
[end-of-instance]
[mk-quant] #13668 internal_vstd!std_specs.ops.SubAssignSpec.sub_assign_req.?_pre_post_definition 6 #8914 #13667
[attach-var-names] #13668 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13661 or #10843 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #13669 = #2596 #13662
[instance] 0x0 #13669
[attach-enode] #13669 0
[end-of-instance]
[mk-app] #13669 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13669
[mk-app] #13670 = #13669 #13661
[instance] 0x0 #13670
[attach-enode] #13670 0
[end-of-instance]
[mk-app] #13669 or #10843 #10213 #8923
[mk-app] #13670 or #13661 #8923
[inst-discovered] theory-solving 0x0 basic# ; #13670
[mk-app] #13671 = #13670 #13669
[instance] 0x0 #13671
[attach-enode] #13671 0
[end-of-instance]
[mk-quant] #13670 internal_vstd!std_specs.ops.SubAssignSpec.sub_assign_spec.?_pre_post_definition 6 #8925 #13669
[attach-var-names] #13670 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13671 = #2316 #13662
[instance] 0x0 #13671
[attach-enode] #13671 0
[end-of-instance]
[mk-app] #13671 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13671
[mk-app] #13672 = #13671 #13661
[instance] 0x0 #13672
[attach-enode] #13672 0
[end-of-instance]
[mk-app] #13671 or #10245 #10213 #8990
[mk-app] #13672 or #13661 #8990
[inst-discovered] theory-solving 0x0 basic# ; #13672
[mk-app] #13673 = #13672 #13671
[instance] 0x0 #13673
[attach-enode] #13673 0
[end-of-instance]
[mk-quant] #13672 user_g1__g__laws_hold_0 2 #8992 #13671
[attach-var-names] #13672 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13673 = #2316 #13662
[instance] 0x0 #13673
[attach-enode] #13673 0
[end-of-instance]
[mk-app] #13673 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13673
[mk-app] #13674 = #13673 #13661
[instance] 0x0 #13674
[attach-enode] #13674 0
[end-of-instance]
[mk-app] #13673 or #10245 #10213 #8996
[mk-app] #13674 or #13661 #8996
[inst-discovered] theory-solving 0x0 basic# ; #13674
[mk-app] #13675 = #13674 #13673
[instance] 0x0 #13675
[attach-enode] #13675 0
[end-of-instance]
[mk-quant] #13674 user_g1__g__laws_hold_1 2 #8998 #13673
[attach-var-names] #13674 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13675 = #2316 #13662
[instance] 0x0 #13675
[attach-enode] #13675 0
[end-of-instance]
[mk-app] #13675 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13675
[mk-app] #13676 = #13675 #13661
[instance] 0x0 #13676
[attach-enode] #13676 0
[end-of-instance]
[mk-app] #13675 or #10245 #10213 #9002
[mk-app] #13676 or #13661 #9002
[inst-discovered] theory-solving 0x0 basic# ; #13676
[mk-app] #13677 = #13676 #13675
[instance] 0x0 #13677
[attach-enode] #13677 0
[end-of-instance]
[mk-quant] #13676 user_g1__g__laws_hold_2 2 #9004 #13675
[attach-var-names] #13676 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13677 = #2316 #13662
[instance] 0x0 #13677
[attach-enode] #13677 0
[end-of-instance]
[mk-app] #13677 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13677
[mk-app] #13678 = #13677 #13661
[instance] 0x0 #13678
[attach-enode] #13678 0
[end-of-instance]
[mk-app] #13677 or #10245 #10213 #9008
[mk-app] #13678 or #13661 #9008
[inst-discovered] theory-solving 0x0 basic# ; #13678
[mk-app] #13679 = #13678 #13677
[instance] 0x0 #13679
[attach-enode] #13679 0
[end-of-instance]
[mk-quant] #13678 user_g1__g__laws_hold_3 2 #9010 #13677
[attach-var-names] #13678 (|b$| ; |Poly|) (|a$| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #9134
[mk-app] #13661 = #9134 #9134
[instance] 0x0 #13661
[attach-enode] #13661 0
[end-of-instance]
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13679 = #2316 #13662
[instance] 0x0 #13679
[attach-enode] #13679 0
[end-of-instance]
[mk-app] #13679 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13679
[mk-app] #13680 = #13679 #13661
[instance] 0x0 #13680
[attach-enode] #13680 0
[end-of-instance]
[mk-app] #13679 or #10245 #10213 #9017
[mk-app] #13680 or #13661 #9017
[inst-discovered] theory-solving 0x0 basic# ; #13680
[mk-app] #13681 = #13680 #13679
[instance] 0x0 #13681
[attach-enode] #13681 0
[end-of-instance]
[mk-quant] #13680 user_g1__g__laws_hold_5 2 #9019 #13679
[attach-var-names] #13680 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13681 = #2316 #13662
[instance] 0x0 #13681
[attach-enode] #13681 0
[end-of-instance]
[mk-app] #13681 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13681
[mk-app] #13682 = #13681 #13661
[instance] 0x0 #13682
[attach-enode] #13682 0
[end-of-instance]
[mk-app] #13681 or #10245 #10213 #9023
[mk-app] #13682 or #13661 #9023
[inst-discovered] theory-solving 0x0 basic# ; #13682
[mk-app] #13683 = #13682 #13681
[instance] 0x0 #13683
[attach-enode] #13683 0
[end-of-instance]
[mk-quant] #13682 user_g1__g__laws_hold_6 2 #9025 #13681
[attach-var-names] #13682 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13683 = #2316 #13662
[instance] 0x0 #13683
[attach-enode] #13683 0
[end-of-instance]
[mk-app] #13683 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13683
[mk-app] #13684 = #13683 #13661
[instance] 0x0 #13684
[attach-enode] #13684 0
[end-of-instance]
[mk-app] #13683 or #10245 #10213 #9036
[mk-app] #13684 or #13661 #9036
[inst-discovered] theory-solving 0x0 basic# ; #13684
[mk-app] #13685 = #13684 #13683
[instance] 0x0 #13685
[attach-enode] #13685 0
[end-of-instance]
[mk-quant] #13684 user_g1__g__laws_hold_7 2 #9038 #13683
[attach-var-names] #13684 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13685 = #2316 #13662
[instance] 0x0 #13685
[attach-enode] #13685 0
[end-of-instance]
[mk-app] #13685 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13685
[mk-app] #13686 = #13685 #13661
[instance] 0x0 #13686
[attach-enode] #13686 0
[end-of-instance]
[mk-app] #13685 or #10245 #10213 #9045
[mk-app] #13686 or #13661 #9045
[inst-discovered] theory-solving 0x0 basic# ; #13686
[mk-app] #13687 = #13686 #13685
[instance] 0x0 #13687
[attach-enode] #13687 0
[end-of-instance]
[mk-quant] #13686 user_g1__g__laws_hold_8 2 #9047 #13685
[attach-var-names] #13686 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13687 = #2316 #13662
[instance] 0x0 #13687
[attach-enode] #13687 0
[end-of-instance]
[mk-app] #13687 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13687
[mk-app] #13688 = #13687 #13661
[instance] 0x0 #13688
[attach-enode] #13688 0
[end-of-instance]
[mk-app] #13687 or #10245 #10213 #9054
[mk-app] #13688 or #13661 #9054
[inst-discovered] theory-solving 0x0 basic# ; #13688
[mk-app] #13689 = #13688 #13687
[instance] 0x0 #13689
[attach-enode] #13689 0
[end-of-instance]
[mk-quant] #13688 user_g1__g__laws_hold_9 2 #9056 #13687
[attach-var-names] #13688 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13689 = #2316 #13662
[instance] 0x0 #13689
[attach-enode] #13689 0
[end-of-instance]
[mk-app] #13689 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13689
[mk-app] #13690 = #13689 #13661
[instance] 0x0 #13690
[attach-enode] #13690 0
[end-of-instance]
[mk-app] #13689 or #10245 #10213 #9059 #9065
[mk-app] #13690 or #13661 #9059 #9065
[inst-discovered] theory-solving 0x0 basic# ; #13690
[mk-app] #13691 = #13690 #13689
[instance] 0x0 #13691
[attach-enode] #13691 0
[end-of-instance]
[mk-quant] #13690 user_g1__g__laws_hold_10 2 #9068 #13689
[attach-var-names] #13690 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13691 = #2316 #13662
[instance] 0x0 #13691
[attach-enode] #13691 0
[end-of-instance]
[mk-app] #13691 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13691
[mk-app] #13692 = #13691 #13661
[instance] 0x0 #13692
[attach-enode] #13692 0
[end-of-instance]
[mk-app] #13691 or #10245 #10213 #9082
[mk-app] #13692 or #13661 #9082
[inst-discovered] theory-solving 0x0 basic# ; #13692
[mk-app] #13693 = #13692 #13691
[instance] 0x0 #13693
[attach-enode] #13693 0
[end-of-instance]
[mk-quant] #13692 user_g1__g__laws_hold_12 2 #9084 #13691
[attach-var-names] #13692 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13693 = #2316 #13662
[instance] 0x0 #13693
[attach-enode] #13693 0
[end-of-instance]
[mk-app] #13693 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13693
[mk-app] #13694 = #13693 #13661
[instance] 0x0 #13694
[attach-enode] #13694 0
[end-of-instance]
[mk-app] #13693 or #10245 #10213 #9090
[mk-app] #13694 or #13661 #9090
[inst-discovered] theory-solving 0x0 basic# ; #13694
[mk-app] #13695 = #13694 #13693
[instance] 0x0 #13695
[attach-enode] #13695 0
[end-of-instance]
[mk-quant] #13694 user_g1__g__laws_hold_13 2 #9092 #13693
[attach-var-names] #13694 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13695 = #2316 #13662
[instance] 0x0 #13695
[attach-enode] #13695 0
[end-of-instance]
[mk-app] #13695 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13695
[mk-app] #13696 = #13695 #13661
[instance] 0x0 #13696
[attach-enode] #13696 0
[end-of-instance]
[mk-app] #13695 or #10245 #10213 #9098
[mk-app] #13696 or #13661 #9098
[inst-discovered] theory-solving 0x0 basic# ; #13696
[mk-app] #13697 = #13696 #13695
[instance] 0x0 #13697
[attach-enode] #13697 0
[end-of-instance]
[mk-quant] #13696 user_g1__g__laws_hold_14 2 #9100 #13695
[attach-var-names] #13696 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 or #10245 #10213
[mk-app] #13662 not #13661
[inst-discovered] theory-solving 0x0 basic# ; #2316
[mk-app] #13697 = #2316 #13662
[instance] 0x0 #13697
[attach-enode] #13697 0
[end-of-instance]
[mk-app] #13697 not #13662
[inst-discovered] theory-solving 0x0 basic# ; #13697
[mk-app] #13698 = #13697 #13661
[instance] 0x0 #13698
[attach-enode] #13698 0
[end-of-instance]
[mk-app] #13697 or #10245 #10213 #9163
[mk-app] #13698 or #13661 #9163
[inst-discovered] theory-solving 0x0 basic# ; #13698
[mk-app] #13699 = #13698 #13697
[instance] 0x0 #13699
[attach-enode] #13699 0
[end-of-instance]
[mk-quant] #13698 user_g1__g__laws_hold_15 2 #9110 #13697
[attach-var-names] #13698 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #13661 not #13672
[mk-app] #13662 not #13674
[mk-app] #13699 not #13676
[mk-app] #13700 not #13678
[mk-app] #13701 not #9135
[mk-app] #13702 not #13680
[mk-app] #13703 not #13682
[mk-app] #13704 not #13684
[mk-app] #13705 not #13686
[mk-app] #13706 not #13688
[mk-app] #13707 not #13690
[mk-app] #13708 not #9149
[mk-app] #13709 not #13692
[mk-app] #13710 not #13694
[mk-app] #13711 not #13696
[mk-app] #13712 not #13698
[mk-app] #13713 or #11811 #11812 #11813 #11817 #11818 #11819 #11820 #11821 #11822 #13661 #13662 #13699 #13700 #13701 #13702 #13703 #13704 #13705 #13706 #13707 #13708 #13709 #13710 #13711 #13712 #12040 #12041
[mk-app] #13714 not #13713
[mk-app] #13715 and #8965 #8967 #8970 #8973 #8975 #8978 #8981 #8984 #8987 #13672 #13674 #13676 #13678 #9135 #13680 #13682 #13684 #13686 #13688 #13690 #9149 #13692 #13694 #13696 #13698 #9115 #9120
[inst-discovered] theory-solving 0x0 basic# ; #13715
[mk-app] #13716 = #13715 #13714
[instance] 0x0 #13716
[attach-enode] #13716 0
[end-of-instance]
[mk-app] #13715 or #11809 #13714
[mk-app] #13716 not #11825
[mk-app] #13717 not #11826
[mk-app] #13718 or #13716 #13717
[mk-app] #13719 not #13718
[inst-discovered] theory-solving 0x0 basic# ; #11827
[mk-app] #13720 = #11827 #13719
[instance] 0x0 #13720
[attach-enode] #13720 0
[end-of-instance]
[mk-app] #13720 not #13719
[inst-discovered] theory-solving 0x0 basic# ; #13720
[mk-app] #13721 = #13720 #13718
[instance] 0x0 #13721
[attach-enode] #13721 0
[end-of-instance]
[mk-app] #13719 or #13716 #13717 #11830
[mk-app] #13720 or #13718 #11830
[inst-discovered] theory-solving 0x0 basic# ; #13720
[mk-app] #13721 = #13720 #13719
[instance] 0x0 #13721
[attach-enode] #13721 0
[end-of-instance]
[mk-app] #13718 not #13719
[mk-app] #13720 not #11835
[mk-app] #13721 not #11836
[mk-app] #13722 or #13720 #13721
[mk-app] #13723 not #13722
[inst-discovered] theory-solving 0x0 basic# ; #11837
[mk-app] #13724 = #11837 #13723
[instance] 0x0 #13724
[attach-enode] #13724 0
[end-of-instance]
[mk-app] #13724 not #13723
[inst-discovered] theory-solving 0x0 basic# ; #13724
[mk-app] #13725 = #13724 #13722
[instance] 0x0 #13725
[attach-enode] #13725 0
[end-of-instance]
[mk-app] #13723 or #13720 #13721 #11840
[mk-app] #13724 or #13722 #11840
[inst-discovered] theory-solving 0x0 basic# ; #13724
[mk-app] #13725 = #13724 #13723
[instance] 0x0 #13725
[attach-enode] #13725 0
[end-of-instance]
[mk-app] #13722 not #13723
[mk-app] #13724 not #11845
[mk-app] #13725 not #11846
[mk-app] #13726 or #13724 #13725
[mk-app] #13727 not #13726
[inst-discovered] theory-solving 0x0 basic# ; #11847
[mk-app] #13728 = #11847 #13727
[instance] 0x0 #13728
[attach-enode] #13728 0
[end-of-instance]
[mk-app] #13728 not #13727
[inst-discovered] theory-solving 0x0 basic# ; #13728
[mk-app] #13729 = #13728 #13726
[instance] 0x0 #13729
[attach-enode] #13729 0
[end-of-instance]
[mk-app] #13727 or #13724 #13725 #11850
[mk-app] #13728 or #13726 #11850
[inst-discovered] theory-solving 0x0 basic# ; #13728
[mk-app] #13729 = #13728 #13727
[instance] 0x0 #13729
[attach-enode] #13729 0
[end-of-instance]
[mk-app] #13726 not #13727
[mk-app] #13728 not #11855
[mk-app] #13729 not #11856
[mk-app] #13730 or #13728 #13729
[mk-app] #13731 not #13730
[inst-discovered] theory-solving 0x0 basic# ; #11857
[mk-app] #13732 = #11857 #13731
[instance] 0x0 #13732
[attach-enode] #13732 0
[end-of-instance]
[mk-app] #13732 not #13731
[inst-discovered] theory-solving 0x0 basic# ; #13732
[mk-app] #13733 = #13732 #13730
[instance] 0x0 #13733
[attach-enode] #13733 0
[end-of-instance]
[mk-app] #13731 or #13728 #13729 #11860
[mk-app] #13732 or #13730 #11860
[inst-discovered] theory-solving 0x0 basic# ; #13732
[mk-app] #13733 = #13732 #13731
[instance] 0x0 #13733
[attach-enode] #13733 0
[end-of-instance]
[mk-app] #13730 not #13731
[inst-discovered] theory-solving 0x0 basic# ; #11868
[mk-app] #13732 = #11868 #11868
[instance] 0x0 #13732
[attach-enode] #13732 0
[end-of-instance]
[mk-app] #13732 not #11872
[mk-app] #13733 not #11873
[mk-app] #13734 or #13732 #13733
[mk-app] #13735 not #13734
[inst-discovered] theory-solving 0x0 basic# ; #11874
[mk-app] #13736 = #11874 #13735
[instance] 0x0 #13736
[attach-enode] #13736 0
[end-of-instance]
[mk-app] #13736 not #13735
[inst-discovered] theory-solving 0x0 basic# ; #13736
[mk-app] #13737 = #13736 #13734
[instance] 0x0 #13737
[attach-enode] #13737 0
[end-of-instance]
[mk-app] #13735 or #13732 #13733 #11877
[mk-app] #13736 or #13734 #11877
[inst-discovered] theory-solving 0x0 basic# ; #13736
[mk-app] #13737 = #13736 #13735
[instance] 0x0 #13737
[attach-enode] #13737 0
[end-of-instance]
[mk-app] #13734 not #13735
[mk-app] #13736 not #11882
[mk-app] #13737 not #11883
[mk-app] #13738 or #13736 #13737
[mk-app] #13739 not #13738
[inst-discovered] theory-solving 0x0 basic# ; #11884
[mk-app] #13740 = #11884 #13739
[instance] 0x0 #13740
[attach-enode] #13740 0
[end-of-instance]
[mk-app] #13740 not #13739
[inst-discovered] theory-solving 0x0 basic# ; #13740
[mk-app] #13741 = #13740 #13738
[instance] 0x0 #13741
[attach-enode] #13741 0
[end-of-instance]
[mk-app] #13739 or #13736 #13737 #11887
[mk-app] #13740 or #13738 #11887
[inst-discovered] theory-solving 0x0 basic# ; #13740
[mk-app] #13741 = #13740 #13739
[instance] 0x0 #13741
[attach-enode] #13741 0
[end-of-instance]
[mk-app] #13738 not #13739
[mk-app] #13740 not #11892
[mk-app] #13741 not #11893
[mk-app] #13742 or #13740 #13741
[mk-app] #13743 not #13742
[inst-discovered] theory-solving 0x0 basic# ; #11894
[mk-app] #13744 = #11894 #13743
[instance] 0x0 #13744
[attach-enode] #13744 0
[end-of-instance]
[mk-app] #13744 not #13743
[inst-discovered] theory-solving 0x0 basic# ; #13744
[mk-app] #13745 = #13744 #13742
[instance] 0x0 #13745
[attach-enode] #13745 0
[end-of-instance]
[mk-app] #13743 or #13740 #13741 #11904
[mk-app] #13744 or #13742 #11904
[inst-discovered] theory-solving 0x0 basic# ; #13744
[mk-app] #13745 = #13744 #13743
[instance] 0x0 #13745
[attach-enode] #13745 0
[end-of-instance]
[mk-app] #13742 not #13743
[mk-app] #13744 not #11909
[mk-app] #13745 not #11910
[mk-app] #13746 or #13744 #13745
[mk-app] #13747 not #13746
[inst-discovered] theory-solving 0x0 basic# ; #11911
[mk-app] #13748 = #11911 #13747
[instance] 0x0 #13748
[attach-enode] #13748 0
[end-of-instance]
[mk-app] #13748 not #13747
[inst-discovered] theory-solving 0x0 basic# ; #13748
[mk-app] #13749 = #13748 #13746
[instance] 0x0 #13749
[attach-enode] #13749 0
[end-of-instance]
[mk-app] #13747 or #13744 #13745 #11921
[mk-app] #13748 or #13746 #11921
[inst-discovered] theory-solving 0x0 basic# ; #13748
[mk-app] #13749 = #13748 #13747
[instance] 0x0 #13749
[attach-enode] #13749 0
[end-of-instance]
[mk-app] #13746 not #13747
[mk-app] #13748 not #11926
[mk-app] #13749 not #11927
[mk-app] #13750 or #13748 #13749
[mk-app] #13751 not #13750
[inst-discovered] theory-solving 0x0 basic# ; #11928
[mk-app] #13752 = #11928 #13751
[instance] 0x0 #13752
[attach-enode] #13752 0
[end-of-instance]
[mk-app] #13752 not #13751
[inst-discovered] theory-solving 0x0 basic# ; #13752
[mk-app] #13753 = #13752 #13750
[instance] 0x0 #13753
[attach-enode] #13753 0
[end-of-instance]
[mk-app] #13751 or #13748 #13749 #11938
[mk-app] #13752 or #13750 #11938
[inst-discovered] theory-solving 0x0 basic# ; #13752
[mk-app] #13753 = #13752 #13751
[instance] 0x0 #13753
[attach-enode] #13753 0
[end-of-instance]
[mk-app] #13750 not #13751
[mk-app] #13752 not #11943
[mk-app] #13753 not #11944
[mk-app] #13754 or #13752 #13753
[mk-app] #13755 not #13754
[inst-discovered] theory-solving 0x0 basic# ; #11945
[mk-app] #13756 = #11945 #13755
[instance] 0x0 #13756
[attach-enode] #13756 0
[end-of-instance]
[mk-app] #13756 not #13755
[inst-discovered] theory-solving 0x0 basic# ; #13756
[mk-app] #13757 = #13756 #13754
[instance] 0x0 #13757
[attach-enode] #13757 0
[end-of-instance]
[mk-app] #13755 or #13752 #13753 #11949 #11956
[mk-app] #13756 or #13754 #11949 #11956
[inst-discovered] theory-solving 0x0 basic# ; #13756
[mk-app] #13757 = #13756 #13755
[instance] 0x0 #13757
[attach-enode] #13757 0
[end-of-instance]
[mk-app] #13754 not #13755
[mk-app] #13756 not #11973
[mk-app] #13757 not #11974
[mk-app] #13758 or #13756 #13757
[mk-app] #13759 not #13758
[inst-discovered] theory-solving 0x0 basic# ; #11975
[mk-app] #13760 = #11975 #13759
[instance] 0x0 #13760
[attach-enode] #13760 0
[end-of-instance]
[mk-app] #13760 not #13759
[inst-discovered] theory-solving 0x0 basic# ; #13760
[mk-app] #13761 = #13760 #13758
[instance] 0x0 #13761
[attach-enode] #13761 0
[end-of-instance]
[mk-app] #13759 or #13756 #13757 #11985
[mk-app] #13760 or #13758 #11985
[inst-discovered] theory-solving 0x0 basic# ; #13760
[mk-app] #13761 = #13760 #13759
[instance] 0x0 #13761
[attach-enode] #13761 0
[end-of-instance]
[mk-app] #13758 not #13759
[mk-app] #13760 not #11990
[mk-app] #13761 not #11991
[mk-app] #13762 or #13760 #13761
[mk-app] #13763 not #13762
[inst-discovered] theory-solving 0x0 basic# ; #11992
[mk-app] #13764 = #11992 #13763
[instance] 0x0 #13764
[attach-enode] #13764 0
[end-of-instance]
[mk-app] #13764 not #13763
[inst-discovered] theory-solving 0x0 basic# ; #13764
[mk-app] #13765 = #13764 #13762
[instance] 0x0 #13765
[attach-enode] #13765 0
[end-of-instance]
[mk-app] #13763 or #13760 #13761 #12002
[mk-app] #13764 or #13762 #12002
[inst-discovered] theory-solving 0x0 basic# ; #13764
[mk-app] #13765 = #13764 #13763
[instance] 0x0 #13765
[attach-enode] #13765 0
[end-of-instance]
[mk-app] #13762 not #13763
[mk-app] #13764 not #12007
[mk-app] #13765 not #12008
[mk-app] #13766 or #13764 #13765
[mk-app] #13767 not #13766
[inst-discovered] theory-solving 0x0 basic# ; #12009
[mk-app] #13768 = #12009 #13767
[instance] 0x0 #13768
[attach-enode] #13768 0
[end-of-instance]
[mk-app] #13768 not #13767
[inst-discovered] theory-solving 0x0 basic# ; #13768
[mk-app] #13769 = #13768 #13766
[instance] 0x0 #13769
[attach-enode] #13769 0
[end-of-instance]
[mk-app] #13767 or #13764 #13765 #12016
[mk-app] #13768 or #13766 #12016
[inst-discovered] theory-solving 0x0 basic# ; #13768
[mk-app] #13769 = #13768 #13767
[instance] 0x0 #13769
[attach-enode] #13769 0
[end-of-instance]
[mk-app] #13766 not #13767
[mk-app] #13768 not #12021
[mk-app] #13769 not #12022
[mk-app] #13770 or #13768 #13769
[mk-app] #13771 not #13770
[inst-discovered] theory-solving 0x0 basic# ; #12023
[mk-app] #13772 = #12023 #13771
[instance] 0x0 #13772
[attach-enode] #13772 0
[end-of-instance]
[mk-app] #13772 not #13771
[inst-discovered] theory-solving 0x0 basic# ; #13772
[mk-app] #13773 = #13772 #13770
[instance] 0x0 #13773
[attach-enode] #13773 0
[end-of-instance]
[mk-app] #13771 or #13768 #13769 #12037
[mk-app] #13772 or #13770 #12037
[inst-discovered] theory-solving 0x0 basic# ; #13772
[mk-app] #13773 = #13772 #13771
[instance] 0x0 #13773
[attach-enode] #13773 0
[end-of-instance]
[mk-app] #13770 not #13771
[mk-app] #13772 or #8963 #11811 #11812 #11813 #11817 #11818 #11819 #11820 #11821 #11822 #13718 #13722 #13726 #13730 #11869 #13734 #13738 #13742 #13746 #13750 #13754 #11970 #13758 #13762 #13766 #13770 #12040 #12041
[inst-discovered] theory-solving 0x0 basic# ; #13772
[mk-app] #13773 = #13772 #13772
[instance] 0x0 #13773
[attach-enode] #13773 0
[end-of-instance]
[mk-app] #13773 not #13715
[mk-app] #13774 not #13772
[mk-app] #13775 or #13773 #13774
[mk-app] #13776 not #13775
[mk-app] #13777 and #13715 #13772
[inst-discovered] theory-solving 0x0 basic# ; #13777
[mk-app] #13778 = #13777 #13776
[instance] 0x0 #13778
[attach-enode] #13778 0
[end-of-instance]
[mk-quant] #13777 internal_g1!g.laws_hold.?_definition 2 #9123 #13776
[attach-var-names] #13777 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13778 or #9166 #13777
[mk-app] #13779 not #9180
[mk-app] #13780 or #13779 #13203 #13154 #13110 #192
[mk-app] #13781 not #13780
[inst-discovered] theory-solving 0x0 basic# ; #9181
[mk-app] #13782 = #9181 #13781
[instance] 0x0 #13782
[attach-enode] #13782 0
[end-of-instance]
[mk-app] #13782 not #13781
[inst-discovered] theory-solving 0x0 basic# ; #13782
[mk-app] #13783 = #13782 #13780
[instance] 0x0 #13783
[attach-enode] #13783 0
[end-of-instance]
[mk-app] #13782 not #9187
[mk-app] #13783 or #13207 #9200 #12341 #6446 #13782
[mk-app] #13784 not #13783
[inst-discovered] theory-solving 0x0 basic# ; #9204
[mk-app] #13785 = #9204 #13784
[instance] 0x0 #13785
[attach-enode] #13785 0
[end-of-instance]
[mk-app] #13785 not #13784
[inst-discovered] theory-solving 0x0 basic# ; #13785
[mk-app] #13786 = #13785 #13783
[instance] 0x0 #13786
[attach-enode] #13786 0
[end-of-instance]
[mk-app] #13784 not #9189
[mk-app] #13785 not #9190
[mk-app] #13786 or #13784 #13785
[mk-app] #13787 not #13786
[inst-discovered] theory-solving 0x0 basic# ; #9191
[mk-app] #13788 = #9191 #13787
[instance] 0x0 #13788
[attach-enode] #13788 0
[end-of-instance]
[mk-app] #13788 or #13779 #13203 #13154 #13110 #192 #13207 #9200 #12341 #6446 #13782 #13787
[mk-app] #13789 or #13780 #13783 #13787
[inst-discovered] theory-solving 0x0 basic# ; #13789
[mk-app] #13790 = #13789 #13788
[instance] 0x0 #13790
[attach-enode] #13790 0
[end-of-instance]
[mk-quant] #13783 user_g1__g__ix_inj_0 5 #9194 #13788
[attach-var-names] #13783 (|c!| ; |Poly|) (|q!| ; |Poly|) (|p!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|)
[mk-app] #13780 or #9197 #13783
[mk-app] #13781 or #13203 #13154 #13110
[mk-app] #13789 not #13781
[inst-discovered] theory-solving 0x0 basic# ; #9203
[mk-app] #13790 = #9203 #13789
[instance] 0x0 #13790
[attach-enode] #13790 0
[end-of-instance]
[mk-app] #13790 not #13789
[inst-discovered] theory-solving 0x0 basic# ; #13790
[mk-app] #13791 = #13790 #13781
[instance] 0x0 #13791
[attach-enode] #13791 0
[end-of-instance]
[mk-app] #13790 or #13207 #9230 #13199 #9234
[mk-app] #13791 not #13790
[inst-discovered] theory-solving 0x0 basic# ; #9236
[mk-app] #13792 = #9236 #13791
[instance] 0x0 #13792
[attach-enode] #13792 0
[end-of-instance]
[mk-app] #13792 not #13791
[inst-discovered] theory-solving 0x0 basic# ; #13792
[mk-app] #13793 = #13792 #13790
[instance] 0x0 #13793
[attach-enode] #13793 0
[end-of-instance]
[mk-app] #13791 not #9238
[mk-app] #13792 not #9240
[mk-app] #13793 or #13791 #13792 #9243
[mk-app] #13794 not #13793
[inst-discovered] theory-solving 0x0 basic# ; #9247
[mk-app] #13795 = #9247 #13794
[instance] 0x0 #13795
[attach-enode] #13795 0
[end-of-instance]
[mk-app] #13795 or #13203 #13154 #13110 #13207 #9230 #13199 #9234 #13794
[mk-app] #13796 or #13781 #13790 #13794
[inst-discovered] theory-solving 0x0 basic# ; #13796
[mk-app] #13797 = #13796 #13795
[instance] 0x0 #13797
[attach-enode] #13797 0
[end-of-instance]
[mk-quant] #13790 user_g1__g__ix_bound_0 4 #9224 #13795
[attach-var-names] #13790 (|r!| ; |Int|) (|c!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|)
[mk-app] #13781 or #9241 #13790
[mk-app] #13789 not #9268
[mk-app] #13796 or #5777 #13789
[mk-app] #13797 not #13796
[inst-discovered] theory-solving 0x0 basic# ; #9269
[mk-app] #13798 = #9269 #13797
[instance] 0x0 #13798
[attach-enode] #13798 0
[end-of-instance]
[mk-app] #13798 not #13797
[inst-discovered] theory-solving 0x0 basic# ; #13798
[mk-app] #13799 = #13798 #13796
[instance] 0x0 #13799
[attach-enode] #13799 0
[end-of-instance]
[mk-app] #13798 or #5777 #13789 #9271
[mk-app] #13799 or #13796 #9271
[inst-discovered] theory-solving 0x0 basic# ; #13799
[mk-app] #13800 = #13799 #13798
[instance] 0x0 #13800
[attach-enode] #13800 0
[end-of-instance]
[mk-quant] #13799 internal_vstd!std_specs.range.impl&__3.obeys_prophetic_iter_laws.?_definition 3 #9273 #13798
[attach-var-names] #13799 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13796 or #9279 #13799
[mk-app] #13797 or #5777 #13789
[mk-app] #13800 not #13797
[inst-discovered] theory-solving 0x0 basic# ; #9269
[mk-app] #13801 = #9269 #13800
[instance] 0x0 #13801
[attach-enode] #13801 0
[end-of-instance]
[mk-app] #13801 not #13800
[inst-discovered] theory-solving 0x0 basic# ; #13801
[mk-app] #13802 = #13801 #13797
[instance] 0x0 #13802
[attach-enode] #13802 0
[end-of-instance]
[mk-app] #13801 or #5777 #13789 #9337
[mk-app] #13802 or #13797 #9337
[inst-discovered] theory-solving 0x0 basic# ; #13802
[mk-app] #13803 = #13802 #13801
[instance] 0x0 #13803
[attach-enode] #13803 0
[end-of-instance]
[mk-quant] #13802 internal_vstd!std_specs.range.impl&__3.remaining.?_definition 3 #9328 #13801
[attach-var-names] #13802 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13797 or #9332 #13802
[mk-app] #13800 or #5777 #13789
[mk-app] #13803 not #13800
[inst-discovered] theory-solving 0x0 basic# ; #9269
[mk-app] #13804 = #9269 #13803
[instance] 0x0 #13804
[attach-enode] #13804 0
[end-of-instance]
[mk-app] #13804 not #13803
[inst-discovered] theory-solving 0x0 basic# ; #13804
[mk-app] #13805 = #13804 #13800
[instance] 0x0 #13805
[attach-enode] #13805 0
[end-of-instance]
[mk-app] #13804 or #5777 #13789 #9348
[mk-app] #13805 or #13800 #9348
[inst-discovered] theory-solving 0x0 basic# ; #13805
[mk-app] #13806 = #13805 #13804
[instance] 0x0 #13806
[attach-enode] #13806 0
[end-of-instance]
[mk-quant] #13805 internal_vstd!std_specs.range.impl&__3.decrease.?_definition 3 #9350 #13804
[attach-var-names] #13805 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13800 or #9355 #13805
[mk-app] #13803 not #9359
[mk-app] #13806 or #5347 #13803
[mk-app] #13807 not #13806
[inst-discovered] theory-solving 0x0 basic# ; #9360
[mk-app] #13808 = #9360 #13807
[instance] 0x0 #13808
[attach-enode] #13808 0
[end-of-instance]
[mk-app] #13808 not #13807
[inst-discovered] theory-solving 0x0 basic# ; #13808
[mk-app] #13809 = #13808 #13806
[instance] 0x0 #13809
[attach-enode] #13809 0
[end-of-instance]
[mk-app] #13808 not #9382
[mk-app] #13809 or #13082 #13808
[mk-app] #13810 not #13809
[inst-discovered] theory-solving 0x0 basic# ; #9383
[mk-app] #13811 = #9383 #13810
[instance] 0x0 #13811
[attach-enode] #13811 0
[end-of-instance]
[mk-app] #13811 if #13809 #2127 #9372
[mk-app] #13812 if #13810 #9372 #2127
[inst-discovered] theory-solving 0x0 datatype# ; #13812
[mk-app] #13813 = #13812 #13811
[instance] 0x0 #13813
[attach-enode] #13813 0
[end-of-instance]
[mk-app] #13810 Poly%core!option.Option. #13811
[mk-app] #13812 = #9361 #13810
[mk-app] #13813 or #5347 #13803 #13812
[mk-app] #13814 or #13806 #13812
[inst-discovered] theory-solving 0x0 basic# ; #13814
[mk-app] #13815 = #13814 #13813
[instance] 0x0 #13815
[attach-enode] #13815 0
[end-of-instance]
[mk-quant] #13814 internal_vstd!std_specs.range.impl&__3.peek.?_definition 4 #9377 #13813
[attach-var-names] #13814 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13806 or #9390 #13814
[mk-app] #13807 not #9393
[mk-app] #13815 not #9396
[mk-app] #13816 or #13807 #13815
[mk-app] #13817 not #13816
[inst-discovered] theory-solving 0x0 basic# ; #9397
[mk-app] #13818 = #9397 #13817
[instance] 0x0 #13818
[attach-enode] #13818 0
[end-of-instance]
[mk-app] #13818 = #13816 #9392
[mk-app] #13819 not #13818
[mk-app] #13820 = #9392 #13817
[inst-discovered] theory-solving 0x0 basic# ; #13820
[mk-app] #13821 = #13820 #13819
[instance] 0x0 #13821
[attach-enode] #13821 0
[end-of-instance]
[mk-app] #13817 not #13816
[inst-discovered] theory-solving 0x0 basic# ; #13819
[mk-app] #13817 = #13819 #13819
[instance] 0x0 #13817
[attach-enode] #13817 0
[end-of-instance]
[mk-quant] #13817 internal_ens__core!iter.range.impl&__6.next._definition 4 #9399 #13819
[attach-var-names] #13817 (|r!| ; |Poly|) (|range!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13820 not #9401
[mk-app] #13821 not #9402
[mk-app] #13822 or #13820 #13821
[mk-app] #13823 not #13822
[inst-discovered] theory-solving 0x0 basic# ; #9403
[mk-app] #13824 = #9403 #13823
[instance] 0x0 #13824
[attach-enode] #13824 0
[end-of-instance]
[mk-app] #13824 not #13823
[inst-discovered] theory-solving 0x0 basic# ; #13824
[mk-app] #13825 = #13824 #13822
[instance] 0x0 #13825
[attach-enode] #13825 0
[end-of-instance]
[mk-app] #13824 or #13820 #13821 #9412 #9407
[mk-app] #13825 or #13822 #9412 #9407
[inst-discovered] theory-solving 0x0 basic# ; #13825
[mk-app] #13826 = #13825 #13824
[instance] 0x0 #13826
[attach-enode] #13826 0
[end-of-instance]
[mk-quant] #13825 user_core__iter__range__impl&%6__next_0 4 #9410 #13824
[attach-var-names] #13825 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|r$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #13822 or #3429 #2937
[mk-app] #13823 not #13822
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13826 = #5000 #13823
[instance] 0x0 #13826
[attach-enode] #13826 0
[end-of-instance]
[mk-app] #13826 not #13823
[inst-discovered] theory-solving 0x0 basic# ; #13826
[mk-app] #13827 = #13826 #13822
[instance] 0x0 #13827
[attach-enode] #13827 0
[end-of-instance]
[mk-app] #13826 or #3429 #2937 #9416
[mk-app] #13827 or #13822 #9416
[inst-discovered] theory-solving 0x0 basic# ; #13827
[mk-app] #13828 = #13827 #13826
[instance] 0x0 #13828
[attach-enode] #13828 0
[end-of-instance]
[mk-quant] #13827 internal_core__iter__range__impl&__6_trait_impl_definition 2 #9418 #13826
[attach-var-names] #13827 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13822 or #3429 #2937
[mk-app] #13823 not #13822
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13828 = #5000 #13823
[instance] 0x0 #13828
[attach-enode] #13828 0
[end-of-instance]
[mk-app] #13828 not #13823
[inst-discovered] theory-solving 0x0 basic# ; #13828
[mk-app] #13829 = #13828 #13822
[instance] 0x0 #13829
[attach-enode] #13829 0
[end-of-instance]
[mk-app] #13828 or #3429 #2937 #9422
[mk-app] #13829 or #13822 #9422
[inst-discovered] theory-solving 0x0 basic# ; #13829
[mk-app] #13830 = #13829 #13828
[instance] 0x0 #13830
[attach-enode] #13830 0
[end-of-instance]
[mk-quant] #13829 internal_vstd__std_specs__range__impl&__3_trait_impl_definition 2 #9424 #13828
[attach-var-names] #13829 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13822 or #3429 #2937
[mk-app] #13823 not #13822
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13830 = #5000 #13823
[instance] 0x0 #13830
[attach-enode] #13830 0
[end-of-instance]
[mk-app] #13830 not #13823
[inst-discovered] theory-solving 0x0 basic# ; #13830
[mk-app] #13831 = #13830 #13822
[instance] 0x0 #13831
[attach-enode] #13831 0
[end-of-instance]
[mk-app] #13830 or #3429 #2937 #9428
[mk-app] #13831 or #13822 #9428
[inst-discovered] theory-solving 0x0 basic# ; #13831
[mk-app] #13832 = #13831 #13830
[instance] 0x0 #13832
[attach-enode] #13832 0
[end-of-instance]
[mk-quant] #13831 internal_core__iter__range__impl&__7_trait_impl_definition 2 #9430 #13830
[attach-var-names] #13831 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13822 or #5777 #13789
[mk-app] #13823 not #13822
[inst-discovered] theory-solving 0x0 basic# ; #9269
[mk-app] #13832 = #9269 #13823
[instance] 0x0 #13832
[attach-enode] #13832 0
[end-of-instance]
[mk-app] #13832 not #13823
[inst-discovered] theory-solving 0x0 basic# ; #13832
[mk-app] #13833 = #13832 #13822
[instance] 0x0 #13833
[attach-enode] #13833 0
[end-of-instance]
[mk-app] #13832 or #5777 #13789 #9442
[mk-app] #13833 or #13822 #9442
[inst-discovered] theory-solving 0x0 basic# ; #13833
[mk-app] #13834 = #13833 #13832
[instance] 0x0 #13834
[attach-enode] #13834 0
[end-of-instance]
[mk-quant] #13833 internal_vstd!std_specs.range.impl&__4.obeys_prophetic_iter_laws.?_definition 3 #9444 #13832
[attach-var-names] #13833 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13822 or #9449 #13833
[mk-app] #13823 or #5777 #13789
[mk-app] #13834 not #13823
[inst-discovered] theory-solving 0x0 basic# ; #9269
[mk-app] #13835 = #9269 #13834
[instance] 0x0 #13835
[attach-enode] #13835 0
[end-of-instance]
[mk-app] #13835 not #13834
[inst-discovered] theory-solving 0x0 basic# ; #13835
[mk-app] #13836 = #13835 #13823
[instance] 0x0 #13836
[attach-enode] #13836 0
[end-of-instance]
[mk-app] #13835 or #5777 #13789 #9473
[mk-app] #13836 or #13823 #9473
[inst-discovered] theory-solving 0x0 basic# ; #13836
[mk-app] #13837 = #13836 #13835
[instance] 0x0 #13837
[attach-enode] #13837 0
[end-of-instance]
[mk-quant] #13836 internal_vstd!std_specs.range.impl&__4.remaining.?_definition 3 #9475 #13835
[attach-var-names] #13836 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13823 or #9480 #13836
[mk-app] #13834 or #5777 #13789
[mk-app] #13837 not #13834
[inst-discovered] theory-solving 0x0 basic# ; #9269
[mk-app] #13838 = #9269 #13837
[instance] 0x0 #13838
[attach-enode] #13838 0
[end-of-instance]
[mk-app] #13838 not #13837
[inst-discovered] theory-solving 0x0 basic# ; #13838
[mk-app] #13839 = #13838 #13834
[instance] 0x0 #13839
[attach-enode] #13839 0
[end-of-instance]
[mk-app] #13838 or #5777 #13789 #9487
[mk-app] #13839 or #13834 #9487
[inst-discovered] theory-solving 0x0 basic# ; #13839
[mk-app] #13840 = #13839 #13838
[instance] 0x0 #13840
[attach-enode] #13840 0
[end-of-instance]
[mk-quant] #13839 internal_vstd!std_specs.range.impl&__4.decrease.?_definition 3 #9489 #13838
[attach-var-names] #13839 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13834 or #9494 #13839
[mk-app] #13837 or #5347 #13803
[mk-app] #13840 not #13837
[inst-discovered] theory-solving 0x0 basic# ; #9360
[mk-app] #13841 = #9360 #13840
[instance] 0x0 #13841
[attach-enode] #13841 0
[end-of-instance]
[mk-app] #13841 not #13840
[inst-discovered] theory-solving 0x0 basic# ; #13841
[mk-app] #13842 = #13841 #13837
[instance] 0x0 #13842
[attach-enode] #13842 0
[end-of-instance]
[mk-app] #13841 not #9522
[mk-app] #13842 or #13082 #13841
[mk-app] #13843 not #13842
[inst-discovered] theory-solving 0x0 basic# ; #9523
[mk-app] #13844 = #9523 #13843
[instance] 0x0 #13844
[attach-enode] #13844 0
[end-of-instance]
[mk-app] #13844 if #13842 #2127 #9512
[mk-app] #13845 if #13843 #9512 #2127
[inst-discovered] theory-solving 0x0 datatype# ; #13845
[mk-app] #13846 = #13845 #13844
[instance] 0x0 #13846
[attach-enode] #13846 0
[end-of-instance]
[mk-app] #13843 Poly%core!option.Option. #13844
[mk-app] #13845 = #9499 #13843
[mk-app] #13846 or #5347 #13803 #13845
[mk-app] #13847 or #13837 #13845
[inst-discovered] theory-solving 0x0 basic# ; #13847
[mk-app] #13848 = #13847 #13846
[instance] 0x0 #13848
[attach-enode] #13848 0
[end-of-instance]
[mk-quant] #13847 internal_vstd!std_specs.range.impl&__4.peek.?_definition 4 #9517 #13846
[attach-var-names] #13847 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13837 or #9529 #13847
[mk-app] #13840 or #3429 #2937
[mk-app] #13848 not #13840
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13849 = #5000 #13848
[instance] 0x0 #13849
[attach-enode] #13849 0
[end-of-instance]
[mk-app] #13849 not #13848
[inst-discovered] theory-solving 0x0 basic# ; #13849
[mk-app] #13850 = #13849 #13840
[instance] 0x0 #13850
[attach-enode] #13850 0
[end-of-instance]
[mk-app] #13849 or #3429 #2937 #9531
[mk-app] #13850 or #13840 #9531
[inst-discovered] theory-solving 0x0 basic# ; #13850
[mk-app] #13851 = #13850 #13849
[instance] 0x0 #13851
[attach-enode] #13851 0
[end-of-instance]
[mk-quant] #13850 internal_core__iter__range__impl&__15_trait_impl_definition 2 #9533 #13849
[attach-var-names] #13850 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13840 or #3429 #2937
[mk-app] #13848 not #13840
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13851 = #5000 #13848
[instance] 0x0 #13851
[attach-enode] #13851 0
[end-of-instance]
[mk-app] #13851 not #13848
[inst-discovered] theory-solving 0x0 basic# ; #13851
[mk-app] #13852 = #13851 #13840
[instance] 0x0 #13852
[attach-enode] #13852 0
[end-of-instance]
[mk-app] #13851 or #3429 #2937 #9537
[mk-app] #13852 or #13840 #9537
[inst-discovered] theory-solving 0x0 basic# ; #13852
[mk-app] #13853 = #13852 #13851
[instance] 0x0 #13853
[attach-enode] #13853 0
[end-of-instance]
[mk-quant] #13852 internal_vstd__std_specs__range__impl&__4_trait_impl_definition 2 #9539 #13851
[attach-var-names] #13852 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13840 or #3429 #2937
[mk-app] #13848 not #13840
[inst-discovered] theory-solving 0x0 basic# ; #5000
[mk-app] #13853 = #5000 #13848
[instance] 0x0 #13853
[attach-enode] #13853 0
[end-of-instance]
[mk-app] #13853 not #13848
[inst-discovered] theory-solving 0x0 basic# ; #13853
[mk-app] #13854 = #13853 #13840
[instance] 0x0 #13854
[attach-enode] #13854 0
[end-of-instance]
[mk-app] #13853 or #3429 #2937 #9543
[mk-app] #13854 or #13840 #9543
[inst-discovered] theory-solving 0x0 basic# ; #13854
[mk-app] #13855 = #13854 #13853
[instance] 0x0 #13855
[attach-enode] #13855 0
[end-of-instance]
[mk-quant] #13854 internal_core__iter__range__impl&__16_trait_impl_definition 2 #9545 #13853
[attach-var-names] #13854 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #13840 not #9560
[mk-app] #13848 or #10213 #13840
[mk-app] #13855 not #13848
[inst-discovered] theory-solving 0x0 basic# ; #9561
[mk-app] #13856 = #9561 #13855
[instance] 0x0 #13856
[attach-enode] #13856 0
[end-of-instance]
[mk-app] #13856 = #13848 #9550
[mk-app] #13857 not #13856
[mk-app] #13858 = #9550 #13855
[inst-discovered] theory-solving 0x0 basic# ; #13858
[mk-app] #13859 = #13858 #13857
[instance] 0x0 #13859
[attach-enode] #13859 0
[end-of-instance]
[mk-app] #13855 not #13848
[inst-discovered] theory-solving 0x0 basic# ; #13857
[mk-app] #13855 = #13857 #13857
[instance] 0x0 #13855
[attach-enode] #13855 0
[end-of-instance]
[mk-quant] #13855 internal_ens__g1!matrix.data_type.MatrixDataType.recip._definition 5 #9558 #13857
[attach-var-names] #13855 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #13858 not #9566
[mk-app] #13859 not #9568
[mk-app] #13860 or #13858 #13859
[mk-app] #13861 not #13860
[inst-discovered] theory-solving 0x0 basic# ; #9569
[mk-app] #13862 = #9569 #13861
[instance] 0x0 #13862
[attach-enode] #13862 0
[end-of-instance]
[mk-app] #13862 or #9575 #13861
[mk-app] #13863 not #13862
[mk-app] #13864 or #10213 #13863
[mk-app] #13865 not #13864
[mk-app] #13866 and #2315 #13862
[inst-discovered] theory-solving 0x0 basic# ; #13866
[mk-app] #13867 = #13866 #13865
[instance] 0x0 #13867
[attach-enode] #13867 0
[end-of-instance]
[mk-app] #13866 = #13864 #9564
[mk-app] #13867 not #13866
[mk-app] #13868 = #9564 #13865
[inst-discovered] theory-solving 0x0 basic# ; #13868
[mk-app] #13869 = #13868 #13867
[instance] 0x0 #13869
[attach-enode] #13869 0
[end-of-instance]
[mk-app] #13865 not #13864
[inst-discovered] theory-solving 0x0 basic# ; #13867
[mk-app] #13865 = #13867 #13867
[instance] 0x0 #13865
[attach-enode] #13865 0
[end-of-instance]
[mk-quant] #13865 internal_ens__g1!matrix.data_type.MatrixDataType.square_root._definition 4 #9573 #13867
[attach-var-names] #13865 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13868 not #9607
[mk-app] #13869 not #9617
[mk-app] #13870 or #13240 #13868 #13869
[mk-app] #13871 not #13870
[inst-discovered] theory-solving 0x0 basic# ; #9620
[mk-app] #13872 = #9620 #13871
[instance] 0x0 #13872
[attach-enode] #13872 0
[end-of-instance]
[mk-app] #13872 = #13870 #9598
[mk-app] #13873 not #13872
[mk-app] #13874 = #9598 #13871
[inst-discovered] theory-solving 0x0 basic# ; #13874
[mk-app] #13875 = #13874 #13873
[instance] 0x0 #13875
[attach-enode] #13875 0
[end-of-instance]
[mk-app] #13871 not #13870
[inst-discovered] theory-solving 0x0 basic# ; #13873
[mk-app] #13871 = #13873 #13873
[instance] 0x0 #13871
[attach-enode] #13871 0
[end-of-instance]
[mk-quant] #13871 internal_ens__g1!matrix.row_major.RowMajorSequentialData.as_slice._definition 10 #9612 #13873
[attach-var-names] #13871 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13874 not #9640
[mk-app] #13875 or #208 #13874
[mk-app] #13876 not #13875
[inst-discovered] theory-solving 0x0 basic# ; #9641
[mk-app] #13877 = #9641 #13876
[instance] 0x0 #13877
[attach-enode] #13877 0
[end-of-instance]
[mk-app] #13877 = #13875 #9629
[mk-app] #13878 not #13877
[mk-app] #13879 = #9629 #13876
[inst-discovered] theory-solving 0x0 basic# ; #13879
[mk-app] #13880 = #13879 #13878
[instance] 0x0 #13880
[attach-enode] #13880 0
[end-of-instance]
[mk-app] #13876 not #13875
[inst-discovered] theory-solving 0x0 basic# ; #13878
[mk-app] #13876 = #13878 #13878
[instance] 0x0 #13876
[attach-enode] #13876 0
[end-of-instance]
[mk-quant] #13876 internal_ens__g1!matrix.row_major.RowMajorSequentialData.len._definition 11 #9643 #13878
[attach-var-names] #13876 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #13879 not #9646
[mk-app] #13880 or #474 #13879
[mk-app] #13881 not #13880
[inst-discovered] theory-solving 0x0 basic# ; #9647
[mk-app] #13882 = #9647 #13881
[instance] 0x0 #13882
[attach-enode] #13882 0
[end-of-instance]
[mk-app] #13882 = #13880 #9645
[mk-app] #13883 not #13882
[mk-app] #13884 = #9645 #13881
[inst-discovered] theory-solving 0x0 basic# ; #13884
[mk-app] #13885 = #13884 #13883
[instance] 0x0 #13885
[attach-enode] #13885 0
[end-of-instance]
[mk-app] #13881 not #13880
[inst-discovered] theory-solving 0x0 basic# ; #13883
[mk-app] #13881 = #13883 #13883
[instance] 0x0 #13881
[attach-enode] #13881 0
[end-of-instance]
[mk-quant] #13881 internal_ens__core!slice.impl&__0.len._definition 4 #9649 #13883
[attach-var-names] #13881 (|%return!| ; |Int|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13884 not #9678
[mk-app] #13885 not #9686
[mk-app] #13886 not #9691
[mk-app] #13887 or #13884 #13885 #13886
[mk-app] #13888 not #13887
[inst-discovered] theory-solving 0x0 basic# ; #9692
[mk-app] #13889 = #9692 #13888
[instance] 0x0 #13889
[attach-enode] #13889 0
[end-of-instance]
[mk-app] #13889 = #13887 #9653
[mk-app] #13890 not #13889
[mk-app] #13891 = #9653 #13888
[inst-discovered] theory-solving 0x0 basic# ; #13891
[mk-app] #13892 = #13891 #13890
[instance] 0x0 #13892
[attach-enode] #13892 0
[end-of-instance]
[mk-app] #13888 not #13887
[inst-discovered] theory-solving 0x0 basic# ; #13890
[mk-app] #13888 = #13890 #13890
[instance] 0x0 #13888
[attach-enode] #13888 0
[end-of-instance]
[mk-quant] #13888 internal_req__g1!matrix.row_major.RowMajorSequentialData.get_at._definition 11 #9669 #13890
[attach-var-names] #13888 (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13891 not #9700
[mk-app] #13892 or #13155 #13891
[mk-app] #13893 not #13892
[inst-discovered] theory-solving 0x0 basic# ; #9701
[mk-app] #13894 = #9701 #13893
[instance] 0x0 #13894
[attach-enode] #13894 0
[end-of-instance]
[mk-app] #13894 = #13892 #9672
[mk-app] #13895 not #13894
[mk-app] #13896 = #9672 #13893
[inst-discovered] theory-solving 0x0 basic# ; #13896
[mk-app] #13897 = #13896 #13895
[instance] 0x0 #13897
[attach-enode] #13897 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13895
[mk-app] #13896 = #13895 #13895
[instance] 0x0 #13896
[attach-enode] #13896 0
[end-of-instance]
[mk-quant] #13896 internal_ens__g1!matrix.row_major.RowMajorSequentialData.get_at._definition 13 #9703 #13895
[attach-var-names] #13896 (|r!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #13893 not #9727
[inst-discovered] theory-solving 0x0 basic# ; #9732
[mk-app] #13893 = #9732 #9732
[instance] 0x0 #13893
[attach-enode] #13893 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9736
[mk-app] #13893 = #9736 #9736
[instance] 0x0 #13893
[attach-enode] #13893 0
[end-of-instance]
[mk-app] #13893 not #9734
[mk-app] #13897 not #9735
[mk-app] #13898 or #13893 #13897
[mk-app] #13899 not #13898
[inst-discovered] theory-solving 0x0 basic# ; #9726
[mk-app] #13900 = #9726 #13899
[instance] 0x0 #13900
[attach-enode] #13900 0
[end-of-instance]
[mk-app] #13900 or #12044 #13899
[mk-app] #13901 not #12080
[inst-discovered] theory-solving 0x0 basic# ; #12082
[mk-app] #13901 = #12082 #12082
[instance] 0x0 #13901
[attach-enode] #13901 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12084
[mk-app] #13901 = #12084 #12084
[instance] 0x0 #13901
[attach-enode] #13901 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12090
[mk-app] #13901 = #12090 #12090
[instance] 0x0 #13901
[attach-enode] #13901 0
[end-of-instance]
[mk-app] #13901 not #13900
[mk-app] #13902 not #12090
[mk-app] #13903 or #13901 #13902
[mk-app] #13904 not #13903
[mk-app] #13905 and #13900 #12090
[inst-discovered] theory-solving 0x0 basic# ; #13905
[mk-app] #13906 = #13905 #13904
[instance] 0x0 #13906
[attach-enode] #13906 0
[end-of-instance]
[mk-quant] #13905 internal_ens__g1!matrix.traits.Matrix.index_agrees._definition 9 #9723 #13904
[attach-var-names] #13905 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13906 not #9738
[mk-app] #13907 or #208 #13906
[mk-app] #13908 not #13907
[inst-discovered] theory-solving 0x0 basic# ; #9739
[mk-app] #13909 = #9739 #13908
[instance] 0x0 #13909
[attach-enode] #13909 0
[end-of-instance]
[mk-app] #13909 = #13907 #9737
[mk-app] #13910 not #13909
[mk-app] #13911 = #9737 #13908
[inst-discovered] theory-solving 0x0 basic# ; #13911
[mk-app] #13912 = #13911 #13910
[instance] 0x0 #13912
[attach-enode] #13912 0
[end-of-instance]
[mk-app] #13908 not #13907
[inst-discovered] theory-solving 0x0 basic# ; #13910
[mk-app] #13908 = #13910 #13910
[instance] 0x0 #13908
[attach-enode] #13908 0
[end-of-instance]
[mk-quant] #13908 internal_ens__g1!matrix.traits.Matrix.rows._definition 11 #9741 #13910
[attach-var-names] #13908 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #13911 not #9744
[mk-app] #13912 or #208 #13911
[mk-app] #13913 not #13912
[inst-discovered] theory-solving 0x0 basic# ; #9745
[mk-app] #13914 = #9745 #13913
[instance] 0x0 #13914
[attach-enode] #13914 0
[end-of-instance]
[mk-app] #13914 = #13912 #9743
[mk-app] #13915 not #13914
[mk-app] #13916 = #9743 #13913
[inst-discovered] theory-solving 0x0 basic# ; #13916
[mk-app] #13917 = #13916 #13915
[instance] 0x0 #13917
[attach-enode] #13917 0
[end-of-instance]
[mk-app] #13913 not #13912
[inst-discovered] theory-solving 0x0 basic# ; #13915
[mk-app] #13913 = #13915 #13915
[instance] 0x0 #13913
[attach-enode] #13913 0
[end-of-instance]
[mk-quant] #13913 internal_ens__g1!matrix.traits.Matrix.cols._definition 11 #9747 #13915
[attach-var-names] #13913 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #13916 not #9749
[mk-app] #13917 or #13916 #13155
[mk-app] #13918 not #13917
[inst-discovered] theory-solving 0x0 basic# ; #9750
[mk-app] #13919 = #9750 #13918
[instance] 0x0 #13919
[attach-enode] #13919 0
[end-of-instance]
[mk-app] #13919 not #13918
[inst-discovered] theory-solving 0x0 basic# ; #13919
[mk-app] #13920 = #13919 #13917
[instance] 0x0 #13920
[attach-enode] #13920 0
[end-of-instance]
[mk-app] #13919 or #13916 #13155 #9752
[mk-app] #13920 or #13917 #9752
[inst-discovered] theory-solving 0x0 basic# ; #13920
[mk-app] #13921 = #13920 #13919
[instance] 0x0 #13921
[attach-enode] #13921 0
[end-of-instance]
[mk-quant] #13920 internal_vstd!pervasive.FnWithRequiresEnsures.requires.?_pre_post_definition 8 #9754 #13919
[attach-var-names] #13920 (|args!| ; |Poly|) (|self!| ; |Poly|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13917 not #9759
[mk-app] #13918 or #13917 #13222 #8033
[mk-app] #13921 not #13918
[inst-discovered] theory-solving 0x0 basic# ; #9760
[mk-app] #13922 = #9760 #13921
[instance] 0x0 #13922
[attach-enode] #13922 0
[end-of-instance]
[mk-app] #13922 not #13921
[inst-discovered] theory-solving 0x0 basic# ; #13922
[mk-app] #13923 = #13922 #13918
[instance] 0x0 #13923
[attach-enode] #13923 0
[end-of-instance]
[mk-app] #13922 or #13917 #13222 #8033 #9762
[mk-app] #13923 or #13918 #9762
[inst-discovered] theory-solving 0x0 basic# ; #13923
[mk-app] #13924 = #13923 #13922
[instance] 0x0 #13924
[attach-enode] #13924 0
[end-of-instance]
[mk-quant] #13923 internal_vstd!pervasive.FnWithRequiresEnsures.ensures.?_pre_post_definition 9 #9764 #13922
[attach-var-names] #13923 (|output!| ; |Poly|) (|args!| ; |Poly|) (|self!| ; |Poly|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13918 not #9772
[mk-app] #13921 not #9774
[mk-app] #13924 not #9776
[mk-app] #13925 not #9777
[mk-app] #13926 not #9778
[mk-app] #13927 or #13918 #13921 #1589 #5347 #13924 #13925 #13926
[mk-app] #13928 not #13927
[inst-discovered] theory-solving 0x0 basic# ; #9788
[mk-app] #13929 = #9788 #13928
[instance] 0x0 #13929
[attach-enode] #13929 0
[end-of-instance]
[mk-app] #13929 not #13928
[inst-discovered] theory-solving 0x0 basic# ; #13929
[mk-app] #13930 = #13929 #13927
[instance] 0x0 #13930
[attach-enode] #13930 0
[end-of-instance]
[mk-app] #13928 or #13918 #13921 #1589 #5347 #13924 #13925 #13926 #9783
[mk-app] #13929 or #13927 #9783
[inst-discovered] theory-solving 0x0 basic# ; #13929
[mk-app] #13930 = #13929 #13928
[instance] 0x0 #13930
[attach-enode] #13930 0
[end-of-instance]
[mk-quant] #13927 internal_vstd!pervasive.impl&__0.requires.?_definition 8 #9785 #13928
[attach-var-names] #13927 (|args!| ; |Poly|) (|self!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #13929 or #9792 #13927
[mk-app] #13930 not #9797
[mk-app] #13931 not #9799
[mk-app] #13932 not #9801
[mk-app] #13933 not #9802
[mk-app] #13934 not #9803
[mk-app] #13935 or #13930 #13931 #13206 #5471 #13932 #13933 #13934
[mk-app] #13936 not #13935
[inst-discovered] theory-solving 0x0 basic# ; #9813
[mk-app] #13937 = #9813 #13936
[instance] 0x0 #13937
[attach-enode] #13937 0
[end-of-instance]
[mk-app] #13937 not #13936
[inst-discovered] theory-solving 0x0 basic# ; #13937
[mk-app] #13938 = #13937 #13935
[instance] 0x0 #13938
[attach-enode] #13938 0
[end-of-instance]
[mk-app] #13936 or #13930 #13931 #13206 #5471 #13932 #13933 #13934 #9808
[mk-app] #13937 or #13935 #9808
[inst-discovered] theory-solving 0x0 basic# ; #13937
[mk-app] #13938 = #13937 #13936
[instance] 0x0 #13938
[attach-enode] #13938 0
[end-of-instance]
[mk-quant] #13935 internal_vstd!pervasive.impl&__0.ensures.?_definition 9 #9810 #13936
[attach-var-names] #13935 (|output!| ; |Poly|) (|args!| ; |Poly|) (|self!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #13937 or #9817 #13935
[mk-app] #13938 not #9830
[mk-app] #13939 not #9806
[mk-app] #13940 or #13938 #13939
[mk-app] #13941 not #13940
[inst-discovered] theory-solving 0x0 basic# ; #9831
[mk-app] #13942 = #9831 #13941
[instance] 0x0 #13942
[attach-enode] #13942 0
[end-of-instance]
[mk-app] #13942 = #13940 #9829
[mk-app] #13943 not #13942
[mk-app] #13944 = #9829 #13941
[inst-discovered] theory-solving 0x0 basic# ; #13944
[mk-app] #13945 = #13944 #13943
[instance] 0x0 #13945
[attach-enode] #13945 0
[end-of-instance]
[mk-app] #13941 not #13940
[inst-discovered] theory-solving 0x0 basic# ; #13943
[mk-app] #13941 = #13943 #13943
[instance] 0x0 #13941
[attach-enode] #13941 0
[end-of-instance]
[mk-quant] #13941 internal_ens__vstd!pervasive.exec_nonstatic_call._definition 9 #9833 #13943
[attach-var-names] #13941 (|output!| ; |Poly|) (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #13944 not #9836
[mk-app] #13945 not #9838
[mk-app] #13946 not #9840
[mk-app] #13947 or #13944 #13945 #5347 #3429 #12971 #13946 #1589
[mk-app] #13948 not #13947
[inst-discovered] theory-solving 0x0 basic# ; #9846
[mk-app] #13949 = #9846 #13948
[instance] 0x0 #13949
[attach-enode] #13949 0
[end-of-instance]
[mk-app] #13949 not #13948
[inst-discovered] theory-solving 0x0 basic# ; #13949
[mk-app] #13950 = #13949 #13947
[instance] 0x0 #13950
[attach-enode] #13950 0
[end-of-instance]
[mk-app] #13948 or #13944 #13945 #5347 #3429 #12971 #13946 #1589 #9842
[mk-app] #13949 or #13947 #9842
[inst-discovered] theory-solving 0x0 basic# ; #13949
[mk-app] #13950 = #13949 #13948
[instance] 0x0 #13950
[attach-enode] #13950 0
[end-of-instance]
[mk-quant] #13947 internal_vstd__pervasive__impl&__0_trait_impl_definition 6 #9844 #13948
[attach-var-names] #13947 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Output&| ; |Type|) (|Output&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #12106
[mk-app] #13949 = #12106 #12106
[instance] 0x0 #13949
[attach-enode] #13949 0
[end-of-instance]
[mk-app] #13949 or #9871 #12089 #12098
[mk-app] #13950 not #13949
[inst-discovered] theory-solving 0x0 basic# ; #12101
[mk-app] #13951 = #12101 #13950
[instance] 0x0 #13951
[attach-enode] #13951 0
[end-of-instance]
[mk-app] #13951 or #9852 #13950
[inst-discovered] theory-solving 0x0 basic# ; #13951
[mk-app] #13952 = #13951 #13951
[instance] 0x0 #13952
[attach-enode] #13952 0
[end-of-instance]
[mk-app] #13952 not #12106
[mk-app] #13953 not #13951
[mk-app] #13954 or #13952 #13953
[mk-app] #13955 not #13954
[mk-app] #13956 and #12106 #13951
[inst-discovered] theory-solving 0x0 basic# ; #13956
[mk-app] #13957 = #13956 #13955
[instance] 0x0 #13957
[attach-enode] #13957 0
[end-of-instance]
[mk-quant] #13956 internal_req__g1!matrix.traits.Matrix.inspect._definition 14 #9866 #13955
[attach-var-names] #13956 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13957 not #12105
[mk-app] #13958 not #12111
[mk-app] #13959 or #8033 #13957 #13958
[mk-app] #13960 not #13959
[inst-discovered] theory-solving 0x0 basic# ; #12121
[mk-app] #13961 = #12121 #13960
[instance] 0x0 #13961
[attach-enode] #13961 0
[end-of-instance]
[mk-app] #13961 or #12102 #13960
[mk-app] #13962 not #9886
[mk-app] #13963 or #1636 #13962
[mk-app] #13964 not #13963
[inst-discovered] theory-solving 0x0 basic# ; #9887
[mk-app] #13965 = #9887 #13964
[instance] 0x0 #13965
[attach-enode] #13965 0
[end-of-instance]
[mk-app] #13965 not #13964
[inst-discovered] theory-solving 0x0 basic# ; #13965
[mk-app] #13966 = #13965 #13963
[instance] 0x0 #13966
[attach-enode] #13966 0
[end-of-instance]
[mk-quant] #13965 user_g1__matrix__traits__Matrix__inspect_1 1 #9888 #13963
[attach-var-names] #13965 (|f0$| ; |Poly|)
[mk-app] #13964 or #9878 #8033 #13965
[inst-discovered] theory-solving 0x0 basic# ; #13964
[mk-app] #13966 = #13964 #13964
[instance] 0x0 #13966
[attach-enode] #13966 0
[end-of-instance]
[mk-app] #13966 not #13961
[mk-app] #13967 not #13964
[mk-app] #13968 or #13966 #13967
[mk-app] #13969 not #13968
[mk-app] #13970 and #13961 #13964
[inst-discovered] theory-solving 0x0 basic# ; #13970
[mk-app] #13971 = #13970 #13969
[instance] 0x0 #13971
[attach-enode] #13971 0
[end-of-instance]
[mk-quant] #13970 internal_ens__g1!matrix.traits.Matrix.inspect._definition 16 #9892 #13969
[attach-var-names] #13970 (|r!| ; |Poly|) (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #13971 not #9908
[mk-app] #13972 not #9912
[mk-app] #13973 not #9914
[mk-app] #13974 or #13971 #13972 #13973
[mk-app] #13975 not #13974
[inst-discovered] theory-solving 0x0 basic# ; #9915
[mk-app] #13976 = #9915 #13975
[instance] 0x0 #13976
[attach-enode] #13976 0
[end-of-instance]
[mk-app] #13976 = #13974 #9894
[mk-app] #13977 not #13976
[mk-app] #13978 = #9894 #13975
[inst-discovered] theory-solving 0x0 basic# ; #13978
[mk-app] #13979 = #13978 #13977
[instance] 0x0 #13979
[attach-enode] #13979 0
[end-of-instance]
[mk-app] #13975 not #13974
[inst-discovered] theory-solving 0x0 basic# ; #13977
[mk-app] #13975 = #13977 #13977
[instance] 0x0 #13975
[attach-enode] #13975 0
[end-of-instance]
[mk-quant] #13975 internal_req__g1!matrix.traits.Matrix.get._definition 11 #9903 #13977
[attach-var-names] #13975 (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #13978 not #13892
[inst-discovered] theory-solving 0x0 basic# ; #9701
[mk-app] #13979 = #9701 #13978
[instance] 0x0 #13979
[attach-enode] #13979 0
[end-of-instance]
[mk-app] #13979 = #13892 #9909
[mk-app] #13980 not #13979
[mk-app] #13981 = #9909 #13978
[inst-discovered] theory-solving 0x0 basic# ; #13981
[mk-app] #13982 = #13981 #13980
[instance] 0x0 #13982
[attach-enode] #13982 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13980
[mk-app] #13981 = #13980 #13980
[instance] 0x0 #13981
[attach-enode] #13981 0
[end-of-instance]
[mk-quant] #13981 internal_ens__g1!matrix.traits.Matrix.get._definition 13 #9905 #13980
[attach-var-names] #13981 (|r!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #13978 or #10955 #9940
[mk-app] #13982 not #13978
[inst-discovered] theory-solving 0x0 basic# ; #9944
[mk-app] #13983 = #9944 #13982
[instance] 0x0 #13983
[attach-enode] #13983 0
[end-of-instance]
[mk-app] #13983 not #13982
[inst-discovered] theory-solving 0x0 basic# ; #13983
[mk-app] #13984 = #13983 #13978
[instance] 0x0 #13984
[attach-enode] #13984 0
[end-of-instance]
[mk-app] #13982 or #192 #10955 #9940 #9928
[mk-app] #13983 or #192 #13978 #9928
[inst-discovered] theory-solving 0x0 basic# ; #13983
[mk-app] #13984 = #13983 #13982
[instance] 0x0 #13984
[attach-enode] #13984 0
[end-of-instance]
[mk-quant] #13978 user_g1__g__frame_0 1 #9931 #13982
[attach-var-names] #13978 (|q$| ; |Poly|)
[mk-app] #13983 not #13978
[mk-app] #13984 or #12127 #13983
[mk-app] #13985 not #13984
[mk-app] #13986 and #9922 #13978
[inst-discovered] theory-solving 0x0 basic# ; #13986
[mk-app] #13987 = #13986 #13985
[instance] 0x0 #13987
[attach-enode] #13987 0
[end-of-instance]
[mk-app] #13986 or #12126 #13985
[mk-app] #13987 not #12155
[mk-app] #13988 or #13987 #12158
[mk-app] #13989 not #13988
[inst-discovered] theory-solving 0x0 basic# ; #12159
[mk-app] #13990 = #12159 #13989
[instance] 0x0 #13990
[attach-enode] #13990 0
[end-of-instance]
[mk-app] #13990 not #13989
[inst-discovered] theory-solving 0x0 basic# ; #13990
[mk-app] #13991 = #13990 #13988
[instance] 0x0 #13991
[attach-enode] #13991 0
[end-of-instance]
[mk-app] #13989 or #12130 #13987 #12158 #12143
[mk-app] #13990 or #12130 #13988 #12143
[inst-discovered] theory-solving 0x0 basic# ; #13990
[mk-app] #13991 = #13990 #13989
[instance] 0x0 #13991
[attach-enode] #13991 0
[end-of-instance]
[mk-app] #13988 not #13989
[mk-app] #13990 or #9920 #12127 #13988
[inst-discovered] theory-solving 0x0 basic# ; #13990
[mk-app] #13991 = #13990 #13990
[instance] 0x0 #13991
[attach-enode] #13991 0
[end-of-instance]
[mk-app] #13991 not #13986
[mk-app] #13992 not #13990
[mk-app] #13993 or #13991 #13992
[mk-app] #13994 not #13993
[mk-app] #13995 and #13986 #13990
[inst-discovered] theory-solving 0x0 basic# ; #13995
[mk-app] #13996 = #13995 #13994
[instance] 0x0 #13996
[attach-enode] #13996 0
[end-of-instance]
[mk-quant] #13995 internal_g1!g.frame.?_definition 5 #9935 #13994
[attach-var-names] #13995 (|n!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #13996 or #9949 #13995
[mk-app] #13997 not #9973
[mk-app] #13998 not #9980
[mk-app] #13999 not #9982
[mk-app] #14000 not #9987
[mk-app] #14001 not #9994
[mk-app] #14002 or #13997 #13998 #13999 #14000 #14001
[mk-app] #14003 not #14002
[inst-discovered] theory-solving 0x0 basic# ; #9995
[mk-app] #14004 = #9995 #14003
[instance] 0x0 #14004
[attach-enode] #14004 0
[end-of-instance]
[mk-app] #14004 = #14002 #9951
[mk-app] #14005 not #14004
[mk-app] #14006 = #9951 #14003
[inst-discovered] theory-solving 0x0 basic# ; #14006
[mk-app] #14007 = #14006 #14005
[instance] 0x0 #14007
[attach-enode] #14007 0
[end-of-instance]
[mk-app] #14003 not #14002
[inst-discovered] theory-solving 0x0 basic# ; #14005
[mk-app] #14003 = #14005 #14005
[instance] 0x0 #14003
[attach-enode] #14003 0
[end-of-instance]
[mk-quant] #14003 internal_req__g1!matrix.traits.Matrix.get_column_copy._definition 11 #9970 #14005
[attach-var-names] #14003 (|col_data!| ; |Poly|) (|column!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14006 or #13082 #10018
[mk-app] #14007 not #14006
[inst-discovered] theory-solving 0x0 basic# ; #10022
[mk-app] #14008 = #10022 #14007
[instance] 0x0 #14008
[attach-enode] #14008 0
[end-of-instance]
[mk-app] #14008 not #14007
[inst-discovered] theory-solving 0x0 basic# ; #14008
[mk-app] #14009 = #14008 #14006
[instance] 0x0 #14009
[attach-enode] #14009 0
[end-of-instance]
[mk-app] #14007 or #192 #13082 #10018 #10007
[mk-app] #14008 or #192 #14006 #10007
[inst-discovered] theory-solving 0x0 basic# ; #14008
[mk-app] #14009 = #14008 #14007
[instance] 0x0 #14009
[attach-enode] #14009 0
[end-of-instance]
[mk-quant] #14006 user_g1__matrix__traits__Matrix__get_column_copy_0 1 #10010 #14007
[attach-var-names] #14006 (|i$| ; |Poly|)
[mk-app] #14008 not #14006
[mk-app] #14009 or #12149 #14008
[mk-app] #14010 not #14009
[mk-app] #14011 and #9989 #14006
[inst-discovered] theory-solving 0x0 basic# ; #14011
[mk-app] #14012 = #14011 #14010
[instance] 0x0 #14012
[attach-enode] #14012 0
[end-of-instance]
[mk-app] #14011 or #12148 #14010
[mk-app] #14012 not #12168
[mk-app] #14013 or #14012 #12189
[mk-app] #14014 not #14013
[inst-discovered] theory-solving 0x0 basic# ; #12190
[mk-app] #14015 = #12190 #14014
[instance] 0x0 #14015
[attach-enode] #14015 0
[end-of-instance]
[mk-app] #14015 not #14014
[inst-discovered] theory-solving 0x0 basic# ; #14015
[mk-app] #14016 = #14015 #14013
[instance] 0x0 #14016
[attach-enode] #14016 0
[end-of-instance]
[mk-app] #14014 or #12152 #14012 #12189 #12178
[mk-app] #14015 or #12152 #14013 #12178
[inst-discovered] theory-solving 0x0 basic# ; #14015
[mk-app] #14016 = #14015 #14014
[instance] 0x0 #14016
[attach-enode] #14016 0
[end-of-instance]
[mk-app] #14013 not #14014
[mk-app] #14015 or #9974 #12149 #14013
[inst-discovered] theory-solving 0x0 basic# ; #14015
[mk-app] #14016 = #14015 #14015
[instance] 0x0 #14016
[attach-enode] #14016 0
[end-of-instance]
[mk-app] #14016 not #14011
[mk-app] #14017 not #14015
[mk-app] #14018 or #14016 #14017
[mk-app] #14019 not #14018
[mk-app] #14020 and #14011 #14015
[inst-discovered] theory-solving 0x0 basic# ; #14020
[mk-app] #14021 = #14020 #14019
[instance] 0x0 #14021
[attach-enode] #14021 0
[end-of-instance]
[mk-quant] #14020 internal_ens__g1!matrix.traits.Matrix.get_column_copy._definition 12 #10014 #14019
[attach-var-names] #14020 (|col_data!| ; |Poly|) (|column!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #14021 not #10045
[mk-app] #14022 not #10047
[mk-app] #14023 not #10049
[mk-app] #14024 not #10053
[mk-app] #14025 or #14021 #14022 #14023 #14024
[mk-app] #14026 not #14025
[inst-discovered] theory-solving 0x0 basic# ; #10054
[mk-app] #14027 = #10054 #14026
[instance] 0x0 #14027
[attach-enode] #14027 0
[end-of-instance]
[mk-app] #14027 = #14025 #10027
[mk-app] #14028 not #14027
[mk-app] #14029 = #10027 #14026
[inst-discovered] theory-solving 0x0 basic# ; #14029
[mk-app] #14030 = #14029 #14028
[instance] 0x0 #14030
[attach-enode] #14030 0
[end-of-instance]
[mk-app] #14026 not #14025
[inst-discovered] theory-solving 0x0 basic# ; #14028
[mk-app] #14026 = #14028 #14028
[instance] 0x0 #14026
[attach-enode] #14026 0
[end-of-instance]
[mk-quant] #14026 internal_req__g1!matrix.traits.Matrix.get_row_copy._definition 11 #10040 #14028
[attach-var-names] #14026 (|row_data!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14029 or #13082 #10073
[mk-app] #14030 not #14029
[inst-discovered] theory-solving 0x0 basic# ; #10077
[mk-app] #14031 = #10077 #14030
[instance] 0x0 #14031
[attach-enode] #14031 0
[end-of-instance]
[mk-app] #14031 not #14030
[inst-discovered] theory-solving 0x0 basic# ; #14031
[mk-app] #14032 = #14031 #14029
[instance] 0x0 #14032
[attach-enode] #14032 0
[end-of-instance]
[mk-app] #14030 or #192 #13082 #10073 #10063
[mk-app] #14031 or #192 #14029 #10063
[inst-discovered] theory-solving 0x0 basic# ; #14031
[mk-app] #14032 = #14031 #14030
[instance] 0x0 #14032
[attach-enode] #14032 0
[end-of-instance]
[mk-quant] #14029 user_g1__matrix__traits__Matrix__get_row_copy_0 1 #10010 #14030
[attach-var-names] #14029 (|j$| ; |Poly|)
[mk-app] #14031 not #14029
[mk-app] #14032 or #12184 #14031
[mk-app] #14033 not #14032
[mk-app] #14034 and #10057 #14029
[inst-discovered] theory-solving 0x0 basic# ; #14034
[mk-app] #14035 = #14034 #14033
[instance] 0x0 #14035
[attach-enode] #14035 0
[end-of-instance]
[mk-app] #14034 or #12183 #14033
[mk-app] #14035 not #12200
[mk-app] #14036 or #14035 #12221
[mk-app] #14037 not #14036
[inst-discovered] theory-solving 0x0 basic# ; #12222
[mk-app] #14038 = #12222 #14037
[instance] 0x0 #14038
[attach-enode] #14038 0
[end-of-instance]
[mk-app] #14038 not #14037
[inst-discovered] theory-solving 0x0 basic# ; #14038
[mk-app] #14039 = #14038 #14036
[instance] 0x0 #14039
[attach-enode] #14039 0
[end-of-instance]
[mk-app] #14037 or #12198 #14035 #12221 #12210
[mk-app] #14038 or #12198 #14036 #12210
[inst-discovered] theory-solving 0x0 basic# ; #14038
[mk-app] #14039 = #14038 #14037
[instance] 0x0 #14039
[attach-enode] #14039 0
[end-of-instance]
[mk-app] #14036 not #14037
[mk-app] #14038 or #10042 #12184 #14036
[inst-discovered] theory-solving 0x0 basic# ; #14038
[mk-app] #14039 = #14038 #14038
[instance] 0x0 #14039
[attach-enode] #14039 0
[end-of-instance]
[mk-app] #14039 not #14034
[mk-app] #14040 not #14038
[mk-app] #14041 or #14039 #14040
[mk-app] #14042 not #14041
[mk-app] #14043 and #14034 #14038
[inst-discovered] theory-solving 0x0 basic# ; #14043
[mk-app] #14044 = #14043 #14042
[instance] 0x0 #14044
[attach-enode] #14044 0
[end-of-instance]
[mk-quant] #14043 internal_ens__g1!matrix.traits.Matrix.get_row_copy._definition 12 #10069 #14042
[attach-var-names] #14043 (|row_data!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #14044 not #10091
[mk-app] #14045 not #10095
[mk-app] #14046 or #14044 #14045
[mk-app] #14047 not #14046
[inst-discovered] theory-solving 0x0 basic# ; #10096
[mk-app] #14048 = #10096 #14047
[instance] 0x0 #14048
[attach-enode] #14048 0
[end-of-instance]
[mk-app] #14048 = #14046 #10089
[mk-app] #14049 not #14048
[mk-app] #14050 = #10089 #14047
[inst-discovered] theory-solving 0x0 basic# ; #14050
[mk-app] #14051 = #14050 #14049
[instance] 0x0 #14051
[attach-enode] #14051 0
[end-of-instance]
[mk-app] #14047 not #14046
[inst-discovered] theory-solving 0x0 basic# ; #14049
[mk-app] #14047 = #14049 #14049
[instance] 0x0 #14047
[attach-enode] #14047 0
[end-of-instance]
[mk-quant] #14047 internal_ens__g1!matrix.traits.AsMatrix.as_matrix._definition 10 #10098 #14049
[attach-var-names] #14047 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14050 not #10102
[mk-app] #14051 not #10105
[mk-app] #14052 not #10108
[mk-app] #14053 not #10118
[mk-app] #14054 or #14050 #14051 #14052 #14053
[mk-app] #14055 not #14054
[inst-discovered] theory-solving 0x0 basic# ; #10121
[mk-app] #14056 = #10121 #14055
[instance] 0x0 #14056
[attach-enode] #14056 0
[end-of-instance]
[mk-app] #14056 = #14054 #10100
[mk-app] #14057 not #14056
[mk-app] #14058 = #10100 #14055
[inst-discovered] theory-solving 0x0 basic# ; #14058
[mk-app] #14059 = #14058 #14057
[instance] 0x0 #14059
[attach-enode] #14059 0
[end-of-instance]
[mk-app] #14055 not #14054
[inst-discovered] theory-solving 0x0 basic# ; #14057
[mk-app] #14055 = #14057 #14057
[instance] 0x0 #14055
[attach-enode] #14055 0
[end-of-instance]
[mk-quant] #14055 internal_ens__g1!matrix.row_major.RowMajorSequentialDataMut.as_mut_slice._definition 10 #10113 #14057
[attach-var-names] #14055 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14058 not #10145
[mk-app] #14059 not #10152
[mk-app] #14060 not #10157
[mk-app] #14061 or #14058 #14059 #14060
[mk-app] #14062 not #14061
[inst-discovered] theory-solving 0x0 basic# ; #10158
[mk-app] #14063 = #10158 #14062
[instance] 0x0 #14063
[attach-enode] #14063 0
[end-of-instance]
[mk-app] #14063 = #14061 #10117
[mk-app] #14064 not #14063
[mk-app] #14065 = #10117 #14062
[inst-discovered] theory-solving 0x0 basic# ; #14065
[mk-app] #14066 = #14065 #14064
[instance] 0x0 #14066
[attach-enode] #14066 0
[end-of-instance]
[mk-app] #14062 not #14061
[inst-discovered] theory-solving 0x0 basic# ; #14064
[mk-app] #14062 = #14064 #14064
[instance] 0x0 #14062
[attach-enode] #14062 0
[end-of-instance]
[mk-quant] #14062 internal_req__g1!matrix.row_major.RowMajorSequentialDataMut.set_at._definition 12 #10137 #14064
[attach-var-names] #14062 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14065 not #10166
[mk-app] #14066 not #10167
[mk-app] #14067 or #14065 #10843 #14066
[mk-app] #14068 not #14067
[inst-discovered] theory-solving 0x0 basic# ; #10168
[mk-app] #14069 = #10168 #14068
[instance] 0x0 #14069
[attach-enode] #14069 0
[end-of-instance]
[mk-app] #14069 not #14068
[inst-discovered] theory-solving 0x0 basic# ; #14069
[mk-app] #14070 = #14069 #14067
[instance] 0x0 #14070
[attach-enode] #14070 0
[end-of-instance]
[mk-app] #14069 not #10172
[mk-app] #14070 or #10186 #14069
[mk-app] #14071 not #14070
[inst-discovered] theory-solving 0x0 basic# ; #10190
[mk-app] #14072 = #10190 #14071
[instance] 0x0 #14072
[attach-enode] #14072 0
[end-of-instance]
[mk-app] #14072 not #14071
[inst-discovered] theory-solving 0x0 basic# ; #14072
[mk-app] #14073 = #14072 #14070
[instance] 0x0 #14073
[attach-enode] #14073 0
[end-of-instance]
[mk-app] #14071 or #14065 #10843 #14066 #10186 #14069 #10176
[mk-app] #14072 or #14067 #14070 #10176
[inst-discovered] theory-solving 0x0 basic# ; #14072
[mk-app] #14073 = #14072 #14071
[instance] 0x0 #14073
[attach-enode] #14073 0
[end-of-instance]
[mk-quant] #14070 user_g1__matrix__traits__MatrixMut__index_mut_agrees_0 3 #10179 #14071
[attach-var-names] #14070 (|post$| ; |Poly|) (|v$| ; |Poly|) (|i$| ; |Poly|)
[mk-app] #14067 or #12215 #14070
[mk-app] #14068 not #12230
[mk-app] #14072 not #12231
[mk-app] #14073 not #12232
[mk-app] #14074 or #14068 #14072 #14073
[mk-app] #14075 not #14074
[inst-discovered] theory-solving 0x0 basic# ; #12233
[mk-app] #14076 = #12233 #14075
[instance] 0x0 #14076
[attach-enode] #14076 0
[end-of-instance]
[mk-app] #14076 not #14075
[inst-discovered] theory-solving 0x0 basic# ; #14076
[mk-app] #14077 = #14076 #14074
[instance] 0x0 #14077
[attach-enode] #14077 0
[end-of-instance]
[mk-app] #14075 not #12240
[mk-app] #14076 or #12255 #14075
[mk-app] #14077 not #14076
[inst-discovered] theory-solving 0x0 basic# ; #12256
[mk-app] #14078 = #12256 #14077
[instance] 0x0 #14078
[attach-enode] #14078 0
[end-of-instance]
[mk-app] #14078 not #14077
[inst-discovered] theory-solving 0x0 basic# ; #14078
[mk-app] #14079 = #14078 #14076
[instance] 0x0 #14079
[attach-enode] #14079 0
[end-of-instance]
[mk-app] #14077 or #14068 #14072 #14073 #12255 #14075 #12245
[mk-app] #14078 or #14074 #14076 #12245
[inst-discovered] theory-solving 0x0 basic# ; #14078
[mk-app] #14079 = #14078 #14077
[instance] 0x0 #14079
[attach-enode] #14079 0
[end-of-instance]
[mk-app] #14076 not #14077
[mk-app] #14074 or #10165 #14076
[inst-discovered] theory-solving 0x0 basic# ; #14074
[mk-app] #14078 = #14074 #14074
[instance] 0x0 #14078
[attach-enode] #14078 0
[end-of-instance]
[mk-app] #14078 not #14067
[mk-app] #14079 not #14074
[mk-app] #14080 or #14078 #14079
[mk-app] #14081 not #14080
[mk-app] #14082 and #14067 #14074
[inst-discovered] theory-solving 0x0 basic# ; #14082
[mk-app] #14083 = #14082 #14081
[instance] 0x0 #14083
[attach-enode] #14083 0
[end-of-instance]
[mk-quant] #14082 internal_ens__g1!matrix.traits.MatrixMut.index_mut_agrees._definition 9 #10182 #14081
[attach-var-names] #14082 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #12276
[mk-app] #14083 = #12276 #12276
[instance] 0x0 #14083
[attach-enode] #14083 0
[end-of-instance]
[mk-app] #14083 or #10211 #12264 #12268
[mk-app] #14084 not #14083
[inst-discovered] theory-solving 0x0 basic# ; #12271
[mk-app] #14085 = #12271 #14084
[instance] 0x0 #14085
[attach-enode] #14085 0
[end-of-instance]
[mk-app] #14085 or #10195 #14084
[inst-discovered] theory-solving 0x0 basic# ; #14085
[mk-app] #14086 = #14085 #14085
[instance] 0x0 #14086
[attach-enode] #14086 0
[end-of-instance]
[mk-app] #14086 not #12276
[mk-app] #14087 not #14085
[mk-app] #14088 or #14086 #14087
[mk-app] #14089 not #14088
[mk-app] #14090 and #12276 #14085
[inst-discovered] theory-solving 0x0 basic# ; #14090
[mk-app] #14091 = #14090 #14089
[instance] 0x0 #14091
[attach-enode] #14091 0
[end-of-instance]
[mk-quant] #14090 internal_req__g1!matrix.traits.MatrixMut.apply._definition 14 #10206 #14089
[attach-var-names] #14090 (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14091 not #12279
[mk-app] #14092 not #12280
[mk-app] #14093 not #12283
[mk-app] #14094 not #12287
[mk-app] #14095 not #12291
[mk-app] #14096 or #8033 #14091 #14092 #14093 #14094 #14095
[mk-app] #14097 not #14096
[inst-discovered] theory-solving 0x0 basic# ; #12301
[mk-app] #14098 = #12301 #14097
[instance] 0x0 #14098
[attach-enode] #14098 0
[end-of-instance]
[mk-app] #14098 or #12272 #14097
[mk-app] #14099 not #10216
[mk-app] #14100 not #10220
[mk-app] #14101 not #10223
[mk-app] #14102 not #10227
[mk-app] #14103 not #10232
[mk-app] #14104 or #14099 #14100 #14101 #14102 #14103
[mk-app] #14105 not #14104
[inst-discovered] theory-solving 0x0 basic# ; #10241
[mk-app] #14106 = #10241 #14105
[instance] 0x0 #14106
[attach-enode] #14106 0
[end-of-instance]
[mk-app] #14106 not #14105
[inst-discovered] theory-solving 0x0 basic# ; #14106
[mk-app] #14107 = #14106 #14104
[instance] 0x0 #14107
[attach-enode] #14107 0
[end-of-instance]
[mk-quant] #14105 user_g1__matrix__traits__MatrixMut__apply_1 2 #10235 #14104
[attach-var-names] #14105 (|m$| ; |Poly|) (|f0$| ; |Poly|)
[mk-app] #14106 or #10215 #8033 #14105
[inst-discovered] theory-solving 0x0 basic# ; #14106
[mk-app] #14107 = #14106 #14106
[instance] 0x0 #14107
[attach-enode] #14107 0
[end-of-instance]
[mk-app] #14107 not #14098
[mk-app] #14108 not #14106
[mk-app] #14109 or #14107 #14108
[mk-app] #14110 not #14109
[mk-app] #14111 and #14098 #14106
[inst-discovered] theory-solving 0x0 basic# ; #14111
[mk-app] #14112 = #14111 #14110
[instance] 0x0 #14112
[attach-enode] #14112 0
[end-of-instance]
[mk-quant] #14111 internal_ens__g1!matrix.traits.MatrixMut.apply._definition 16 #10239 #14110
[attach-var-names] #14111 (|r!| ; |Poly|) (|f!| ; |Poly|) (|self!| ; |Poly|) (|O&| ; |Type|) (|O&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #14112 or #13082 #10269
[mk-app] #14113 not #14112
[inst-discovered] theory-solving 0x0 basic# ; #10273
[mk-app] #14114 = #10273 #14113
[instance] 0x0 #14114
[attach-enode] #14114 0
[end-of-instance]
[mk-app] #14114 not #14113
[inst-discovered] theory-solving 0x0 basic# ; #14114
[mk-app] #14115 = #14114 #14112
[instance] 0x0 #14115
[attach-enode] #14115 0
[end-of-instance]
[mk-app] #14113 or #192 #13082 #10269 #10258
[mk-app] #14114 or #192 #14112 #10258
[inst-discovered] theory-solving 0x0 basic# ; #14114
[mk-app] #14115 = #14114 #14113
[instance] 0x0 #14115
[attach-enode] #14115 0
[end-of-instance]
[mk-quant] #14112 user_core__slice__impl&%0__fill_0 1 #10261 #14113
[attach-var-names] #14112 (|i$| ; |Poly|)
[mk-app] #14114 not #14112
[mk-app] #14115 or #12297 #14114
[mk-app] #14116 not #14115
[mk-app] #14117 and #10251 #14112
[inst-discovered] theory-solving 0x0 basic# ; #14117
[mk-app] #14118 = #14117 #14116
[instance] 0x0 #14118
[attach-enode] #14118 0
[end-of-instance]
[mk-app] #14117 or #12293 #14116
[mk-app] #14118 not #12306
[mk-app] #14119 or #14118 #12325
[mk-app] #14120 not #14119
[inst-discovered] theory-solving 0x0 basic# ; #12326
[mk-app] #14121 = #12326 #14120
[instance] 0x0 #14121
[attach-enode] #14121 0
[end-of-instance]
[mk-app] #14121 not #14120
[inst-discovered] theory-solving 0x0 basic# ; #14121
[mk-app] #14122 = #14121 #14119
[instance] 0x0 #14122
[attach-enode] #14122 0
[end-of-instance]
[mk-app] #14120 or #12299 #14118 #12325 #12314
[mk-app] #14121 or #12299 #14119 #12314
[inst-discovered] theory-solving 0x0 basic# ; #14121
[mk-app] #14122 = #14121 #14120
[instance] 0x0 #14122
[attach-enode] #14122 0
[end-of-instance]
[mk-app] #14119 not #14120
[mk-app] #14121 or #10246 #12297 #14119
[inst-discovered] theory-solving 0x0 basic# ; #14121
[mk-app] #14122 = #14121 #14121
[instance] 0x0 #14122
[attach-enode] #14122 0
[end-of-instance]
[mk-app] #14122 not #14117
[mk-app] #14123 not #14121
[mk-app] #14124 or #14122 #14123
[mk-app] #14125 not #14124
[mk-app] #14126 and #14117 #14121
[inst-discovered] theory-solving 0x0 basic# ; #14126
[mk-app] #14127 = #14126 #14125
[instance] 0x0 #14127
[attach-enode] #14127 0
[end-of-instance]
[mk-quant] #14126 internal_ens__core!slice.impl&__0.fill._definition 4 #10265 #14125
[attach-var-names] #14126 (|value!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14127 or #13082 #10298
[mk-app] #14128 not #14127
[inst-discovered] theory-solving 0x0 basic# ; #10302
[mk-app] #14129 = #10302 #14128
[instance] 0x0 #14129
[attach-enode] #14129 0
[end-of-instance]
[mk-app] #14129 not #14128
[inst-discovered] theory-solving 0x0 basic# ; #14129
[mk-app] #14130 = #14129 #14127
[instance] 0x0 #14130
[attach-enode] #14130 0
[end-of-instance]
[mk-app] #14128 or #192 #13082 #10298 #10287
[mk-app] #14129 or #192 #14127 #10287
[inst-discovered] theory-solving 0x0 basic# ; #14129
[mk-app] #14130 = #14129 #14128
[instance] 0x0 #14130
[attach-enode] #14130 0
[end-of-instance]
[mk-quant] #14127 user_g1__matrix__traits__MatrixMut__set_all_0 1 #10290 #14128
[attach-var-names] #14127 (|q$| ; |Poly|)
[mk-app] #14129 not #14127
[mk-app] #14130 or #12320 #14129
[mk-app] #14131 not #14130
[mk-app] #14132 and #10280 #14127
[inst-discovered] theory-solving 0x0 basic# ; #14132
[mk-app] #14133 = #14132 #14131
[instance] 0x0 #14133
[attach-enode] #14133 0
[end-of-instance]
[mk-app] #14132 or #12319 #14131
[mk-app] #14133 not #12336
[mk-app] #14134 or #14133 #12354
[mk-app] #14135 not #14134
[inst-discovered] theory-solving 0x0 basic# ; #12355
[mk-app] #14136 = #12355 #14135
[instance] 0x0 #14136
[attach-enode] #14136 0
[end-of-instance]
[mk-app] #14136 not #14135
[inst-discovered] theory-solving 0x0 basic# ; #14136
[mk-app] #14137 = #14136 #14134
[instance] 0x0 #14137
[attach-enode] #14137 0
[end-of-instance]
[mk-app] #14135 or #12334 #14133 #12354 #12343
[mk-app] #14136 or #12334 #14134 #12343
[inst-discovered] theory-solving 0x0 basic# ; #14136
[mk-app] #14137 = #14136 #14135
[instance] 0x0 #14137
[attach-enode] #14137 0
[end-of-instance]
[mk-app] #14134 not #14135
[mk-app] #14136 or #10278 #12320 #14134
[inst-discovered] theory-solving 0x0 basic# ; #14136
[mk-app] #14137 = #14136 #14136
[instance] 0x0 #14137
[attach-enode] #14137 0
[end-of-instance]
[mk-app] #14137 not #14132
[mk-app] #14138 not #14136
[mk-app] #14139 or #14137 #14138
[mk-app] #14140 not #14139
[mk-app] #14141 and #14132 #14136
[inst-discovered] theory-solving 0x0 basic# ; #14141
[mk-app] #14142 = #14141 #14140
[instance] 0x0 #14142
[attach-enode] #14142 0
[end-of-instance]
[mk-quant] #14141 internal_ens__g1!matrix.traits.MatrixMut.set_all._definition 11 #10294 #14140
[attach-var-names] #14141 (|value!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #14142 or #13082 #10329
[mk-app] #14143 not #14142
[inst-discovered] theory-solving 0x0 basic# ; #10332
[mk-app] #14144 = #10332 #14143
[instance] 0x0 #14144
[attach-enode] #14144 0
[end-of-instance]
[mk-app] #14144 not #14143
[inst-discovered] theory-solving 0x0 basic# ; #14144
[mk-app] #14145 = #14144 #14142
[instance] 0x0 #14145
[attach-enode] #14145 0
[end-of-instance]
[mk-app] #14143 or #192 #13082 #10329 #10318
[mk-app] #14144 or #192 #14142 #10318
[inst-discovered] theory-solving 0x0 basic# ; #14144
[mk-app] #14145 = #14144 #14143
[instance] 0x0 #14145
[attach-enode] #14145 0
[end-of-instance]
[mk-quant] #14142 user_g1__matrix__traits__MatrixMut__clear_0 1 #10321 #14143
[attach-var-names] #14142 (|q$| ; |Poly|)
[mk-app] #14144 not #14142
[mk-app] #14145 or #12349 #14144
[mk-app] #14146 not #14145
[mk-app] #14147 and #10313 #14142
[inst-discovered] theory-solving 0x0 basic# ; #14147
[mk-app] #14148 = #14147 #14146
[instance] 0x0 #14148
[attach-enode] #14148 0
[end-of-instance]
[mk-app] #14147 or #12348 #14146
[mk-app] #14148 not #12365
[mk-app] #14149 or #14148 #12383
[mk-app] #14150 not #14149
[inst-discovered] theory-solving 0x0 basic# ; #12384
[mk-app] #14151 = #12384 #14150
[instance] 0x0 #14151
[attach-enode] #14151 0
[end-of-instance]
[mk-app] #14151 not #14150
[inst-discovered] theory-solving 0x0 basic# ; #14151
[mk-app] #14152 = #14151 #14149
[instance] 0x0 #14152
[attach-enode] #14152 0
[end-of-instance]
[mk-app] #14150 or #12363 #14148 #12383 #12372
[mk-app] #14151 or #12363 #14149 #12372
[inst-discovered] theory-solving 0x0 basic# ; #14151
[mk-app] #14152 = #14151 #14150
[instance] 0x0 #14152
[attach-enode] #14152 0
[end-of-instance]
[mk-app] #14149 not #14150
[mk-app] #14151 or #10308 #12349 #14149
[inst-discovered] theory-solving 0x0 basic# ; #14151
[mk-app] #14152 = #14151 #14151
[instance] 0x0 #14152
[attach-enode] #14152 0
[end-of-instance]
[mk-app] #14152 not #14147
[mk-app] #14153 not #14151
[mk-app] #14154 or #14152 #14153
[mk-app] #14155 not #14154
[mk-app] #14156 and #14147 #14151
[inst-discovered] theory-solving 0x0 basic# ; #14156
[mk-app] #14157 = #14156 #14155
[instance] 0x0 #14157
[attach-enode] #14157 0
[end-of-instance]
[mk-quant] #14156 internal_ens__g1!matrix.traits.MatrixMut.clear._definition 10 #10325 #14155
[attach-var-names] #14156 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #14157 not #10351
[mk-app] #14158 not #10355
[mk-app] #14159 not #10357
[mk-app] #14160 or #14157 #14158 #14159
[mk-app] #14161 not #14160
[inst-discovered] theory-solving 0x0 basic# ; #10358
[mk-app] #14162 = #10358 #14161
[instance] 0x0 #14162
[attach-enode] #14162 0
[end-of-instance]
[mk-app] #14162 = #14160 #10337
[mk-app] #14163 not #14162
[mk-app] #14164 = #10337 #14161
[inst-discovered] theory-solving 0x0 basic# ; #14164
[mk-app] #14165 = #14164 #14163
[instance] 0x0 #14165
[attach-enode] #14165 0
[end-of-instance]
[mk-app] #14161 not #14160
[inst-discovered] theory-solving 0x0 basic# ; #14163
[mk-app] #14161 = #14163 #14163
[instance] 0x0 #14161
[attach-enode] #14161 0
[end-of-instance]
[mk-quant] #14161 internal_req__g1!matrix.traits.MatrixMut.set._definition 12 #10346 #14163
[attach-var-names] #14161 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14164 or #13082 #10329
[mk-app] #14165 not #14164
[inst-discovered] theory-solving 0x0 basic# ; #10332
[mk-app] #14166 = #10332 #14165
[instance] 0x0 #14166
[attach-enode] #14166 0
[end-of-instance]
[mk-app] #14166 not #14165
[inst-discovered] theory-solving 0x0 basic# ; #14166
[mk-app] #14167 = #14166 #14164
[instance] 0x0 #14167
[attach-enode] #14167 0
[end-of-instance]
[mk-app] #14165 or #192 #14164 #10318
[inst-discovered] theory-solving 0x0 basic# ; #14165
[mk-app] #14166 = #14165 #14143
[instance] 0x0 #14166
[attach-enode] #14166 0
[end-of-instance]
[mk-quant] #14164 user_g1__matrix__traits__MatrixMut__set_zero_0 1 #10321 #14143
[attach-var-names] #14164 (|q$| ; |Poly|)
[mk-app] #14165 not #14164
[mk-app] #14166 or #12349 #14165
[mk-app] #14167 not #14166
[mk-app] #14168 and #10313 #14164
[inst-discovered] theory-solving 0x0 basic# ; #14168
[mk-app] #14169 = #14168 #14167
[instance] 0x0 #14169
[attach-enode] #14169 0
[end-of-instance]
[mk-app] #14168 or #12377 #14167
[mk-app] #14169 not #12393
[mk-app] #14170 or #14169 #12411
[mk-app] #14171 not #14170
[inst-discovered] theory-solving 0x0 basic# ; #12412
[mk-app] #14172 = #12412 #14171
[instance] 0x0 #14172
[attach-enode] #14172 0
[end-of-instance]
[mk-app] #14172 not #14171
[inst-discovered] theory-solving 0x0 basic# ; #14172
[mk-app] #14173 = #14172 #14170
[instance] 0x0 #14173
[attach-enode] #14173 0
[end-of-instance]
[mk-app] #14171 or #12388 #14169 #12411 #12400
[mk-app] #14172 or #12388 #14170 #12400
[inst-discovered] theory-solving 0x0 basic# ; #14172
[mk-app] #14173 = #14172 #14171
[instance] 0x0 #14173
[attach-enode] #14173 0
[end-of-instance]
[mk-app] #14170 not #14171
[mk-app] #14172 or #10361 #12349 #14170
[inst-discovered] theory-solving 0x0 basic# ; #14172
[mk-app] #14173 = #14172 #14172
[instance] 0x0 #14173
[attach-enode] #14173 0
[end-of-instance]
[mk-app] #14173 not #14168
[mk-app] #14174 not #14172
[mk-app] #14175 or #14173 #14174
[mk-app] #14176 not #14175
[mk-app] #14177 and #14168 #14172
[inst-discovered] theory-solving 0x0 basic# ; #14177
[mk-app] #14178 = #14177 #14176
[instance] 0x0 #14178
[attach-enode] #14178 0
[end-of-instance]
[mk-quant] #14177 internal_ens__g1!matrix.traits.MatrixMut.set_zero._definition 10 #10365 #14176
[attach-var-names] #14177 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #14178 not #10391
[mk-app] #14179 not #10395
[mk-app] #14180 not #10402
[mk-app] #14181 not #10409
[mk-app] #14182 not #10411
[mk-app] #14183 or #14178 #14179 #14180 #14181 #14182
[mk-app] #14184 not #14183
[inst-discovered] theory-solving 0x0 basic# ; #10412
[mk-app] #14185 = #10412 #14184
[instance] 0x0 #14185
[attach-enode] #14185 0
[end-of-instance]
[mk-app] #14185 = #14183 #10371
[mk-app] #14186 not #14185
[mk-app] #14187 = #10371 #14184
[inst-discovered] theory-solving 0x0 basic# ; #14187
[mk-app] #14188 = #14187 #14186
[instance] 0x0 #14188
[attach-enode] #14188 0
[end-of-instance]
[mk-app] #14184 not #14183
[inst-discovered] theory-solving 0x0 basic# ; #14186
[mk-app] #14184 = #14186 #14186
[instance] 0x0 #14184
[attach-enode] #14184 0
[end-of-instance]
[mk-quant] #14184 internal_req__g1!matrix.traits.MatrixMut.set_symmetric._definition 12 #10386 #14186
[attach-var-names] #14184 (|value!| ; |Poly|) (|column!| ; |Poly|) (|row!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14187 not #8606
[mk-app] #14188 not #10492
[mk-app] #14189 or #14187 #14188
[mk-app] #14190 not #14189
[inst-discovered] theory-solving 0x0 basic# ; #10493
[mk-app] #14191 = #10493 #14190
[instance] 0x0 #14191
[attach-enode] #14191 0
[end-of-instance]
[mk-app] #14191 = #14189 #10491
[mk-app] #14192 not #14191
[mk-app] #14193 = #10491 #14190
[inst-discovered] theory-solving 0x0 basic# ; #14193
[mk-app] #14194 = #14193 #14192
[instance] 0x0 #14194
[attach-enode] #14194 0
[end-of-instance]
[mk-app] #14190 not #14189
[inst-discovered] theory-solving 0x0 basic# ; #14192
[mk-app] #14190 = #14192 #14192
[instance] 0x0 #14190
[attach-enode] #14190 0
[end-of-instance]
[mk-quant] #14190 internal_ens__core!iter.traits.collect.impl&__0.into_iter._definition 4 #10495 #14192
[attach-var-names] #14190 (|r!| ; |Poly|) (|i!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #14193 or #13082 #10560
[mk-app] #14194 not #14193
[inst-discovered] theory-solving 0x0 basic# ; #10564
[mk-app] #14195 = #10564 #14194
[instance] 0x0 #14195
[attach-enode] #14195 0
[end-of-instance]
[mk-app] #14195 not #14194
[inst-discovered] theory-solving 0x0 basic# ; #14195
[mk-app] #14196 = #14195 #14193
[instance] 0x0 #14196
[attach-enode] #14196 0
[end-of-instance]
[mk-app] #14194 or #192 #13082 #10560 #10542
[mk-app] #14195 or #192 #14193 #10542
[inst-discovered] theory-solving 0x0 basic# ; #14195
[mk-app] #14196 = #14195 #14194
[instance] 0x0 #14196
[attach-enode] #14196 0
[end-of-instance]
[mk-quant] #14193 user_vstd__std_specs__iter__impl&%11__wf_0 1 #10545 #14194
[attach-var-names] #14193 (|i$| ; |Poly|)
[mk-app] #14195 not #14193
[mk-app] #14196 or #12420 #14195
[mk-app] #14197 not #14196
[mk-app] #14198 and #10533 #14193
[inst-discovered] theory-solving 0x0 basic# ; #14198
[mk-app] #14199 = #14198 #14197
[instance] 0x0 #14199
[attach-enode] #14199 0
[end-of-instance]
[mk-app] #14198 or #10559 #14197
[mk-app] #14199 not #14198
[mk-app] #14200 or #12406 #12407 #12416 #14199
[mk-app] #14201 not #14200
[mk-app] #14202 and #10555 #10557 #10528 #14198
[inst-discovered] theory-solving 0x0 basic# ; #14202
[mk-app] #14203 = #14202 #14201
[instance] 0x0 #14203
[attach-enode] #14203 0
[end-of-instance]
[mk-app] #14202 or #12405 #14201
[mk-app] #14203 not #12425
[mk-app] #14204 or #14203 #12448
[mk-app] #14205 not #14204
[inst-discovered] theory-solving 0x0 basic# ; #12449
[mk-app] #14206 = #12449 #14205
[instance] 0x0 #14206
[attach-enode] #14206 0
[end-of-instance]
[mk-app] #14206 not #14205
[inst-discovered] theory-solving 0x0 basic# ; #14206
[mk-app] #14207 = #14206 #14204
[instance] 0x0 #14207
[attach-enode] #14207 0
[end-of-instance]
[mk-app] #14205 or #12423 #14203 #12448 #12434
[mk-app] #14206 or #12423 #14204 #12434
[inst-discovered] theory-solving 0x0 basic# ; #14206
[mk-app] #14207 = #14206 #14205
[instance] 0x0 #14207
[attach-enode] #14207 0
[end-of-instance]
[mk-app] #14204 not #14205
[mk-app] #14206 or #12420 #14204
[mk-app] #14207 not #14206
[mk-app] #14208 or #10559 #14207
[mk-app] #14209 not #14208
[mk-app] #14210 and #10531 #14206
[inst-discovered] theory-solving 0x0 basic# ; #14210
[mk-app] #14211 = #14210 #14209
[instance] 0x0 #14211
[attach-enode] #14211 0
[end-of-instance]
[mk-app] #14210 or #10523 #12406 #12407 #12416 #14209
[inst-discovered] theory-solving 0x0 basic# ; #14210
[mk-app] #14211 = #14210 #14210
[instance] 0x0 #14211
[attach-enode] #14211 0
[end-of-instance]
[mk-app] #14211 not #14202
[mk-app] #14212 not #14210
[mk-app] #14213 or #14211 #14212
[mk-app] #14214 not #14213
[mk-app] #14215 and #14202 #14210
[inst-discovered] theory-solving 0x0 basic# ; #14215
[mk-app] #14216 = #14215 #14214
[instance] 0x0 #14216
[attach-enode] #14216 0
[end-of-instance]
[mk-quant] #14215 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #10551 #14214
[attach-var-names] #14215 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #14216 or #10572 #14215
[mk-app] #14217 not #10576
[mk-app] #14218 not #10578
[mk-app] #14219 not #10580
[mk-app] #14220 not #10582
[mk-app] #14221 not #10585
[mk-app] #14222 not #10586
[mk-app] #14223 or #14217 #14218 #14219 #14220 #14221 #14222
[mk-app] #14224 not #14223
[inst-discovered] theory-solving 0x0 basic# ; #10587
[mk-app] #14225 = #10587 #14224
[instance] 0x0 #14225
[attach-enode] #14225 0
[end-of-instance]
[mk-app] #14225 = #14223 #10574
[mk-app] #14226 not #14225
[mk-app] #14227 = #10574 #14224
[inst-discovered] theory-solving 0x0 basic# ; #14227
[mk-app] #14228 = #14227 #14226
[instance] 0x0 #14228
[attach-enode] #14228 0
[end-of-instance]
[mk-app] #14224 not #14223
[inst-discovered] theory-solving 0x0 basic# ; #14226
[mk-app] #14224 = #14226 #14226
[instance] 0x0 #14224
[attach-enode] #14224 0
[end-of-instance]
[mk-quant] #14224 internal_ens__vstd!std_specs.iter.impl&__11.new._definition 4 #10589 #14226
[attach-var-names] #14224 (|s!| ; |vstd!std_specs.iter.VerusForLoopWrapper.|) (|iter!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #14227 or #10668 #10676
[mk-app] #14228 not #14227
[inst-discovered] theory-solving 0x0 basic# ; #10671
[mk-app] #14229 = #10671 #14228
[instance] 0x0 #14229
[attach-enode] #14229 0
[end-of-instance]
[mk-app] #14229 not #14228
[inst-discovered] theory-solving 0x0 basic# ; #14229
[mk-app] #14230 = #14229 #14227
[instance] 0x0 #14230
[attach-enode] #14230 0
[end-of-instance]
[mk-app] #14228 not #10625
[mk-app] #14229 not #10627
[mk-app] #14230 or #14228 #14229
[mk-app] #14231 not #14230
[inst-discovered] theory-solving 0x0 basic# ; #10628
[mk-app] #14232 = #10628 #14231
[instance] 0x0 #14232
[attach-enode] #14232 0
[end-of-instance]
[mk-app] #14232 or #10668 #10676 #14231
[mk-app] #14233 or #14227 #14231
[inst-discovered] theory-solving 0x0 basic# ; #14233
[mk-app] #14234 = #14233 #14232
[instance] 0x0 #14234
[attach-enode] #14234 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10675
[mk-app] #14227 = #10675 #10675
[instance] 0x0 #14227
[attach-enode] #14227 0
[end-of-instance]
[mk-app] #14227 not #14232
[mk-app] #14233 not #12443
[mk-app] #14234 not #12462
[mk-app] #14235 not #12465
[mk-app] #14236 not #12467
[mk-app] #14237 or #12470 #12471 #12472 #12473 #12474 #14227 #12476 #12477 #12478 #14233 #14234 #14235 #14236
[mk-app] #14238 not #14237
[mk-app] #14239 and #10603 #10606 #10667 #10616 #10669 #14232 #10675 #10674 #10677 #12443 #12462 #12465 #12467
[inst-discovered] theory-solving 0x0 basic# ; #14239
[mk-app] #14240 = #14239 #14238
[instance] 0x0 #14240
[attach-enode] #14240 0
[end-of-instance]
[mk-app] #14239 or #12441 #14238
[mk-app] #14240 not #10643
[mk-app] #14241 not #10648
[mk-app] #14242 not #10651
[mk-app] #14243 not #10655
[mk-app] #14244 or #14240 #14241 #14242 #14243
[mk-app] #14245 not #14244
[inst-discovered] theory-solving 0x0 basic# ; #10678
[mk-app] #14246 = #10678 #14245
[instance] 0x0 #14246
[attach-enode] #14246 0
[end-of-instance]
[mk-app] #14246 not #14245
[inst-discovered] theory-solving 0x0 basic# ; #14246
[mk-app] #14247 = #14246 #14244
[instance] 0x0 #14247
[attach-enode] #14247 0
[end-of-instance]
[mk-quant] #14245 user_vstd__std_specs__iter__impl&%11__next_0 1 #10658 #10659 #14244
[attach-var-names] #14245 (|m$| ; |Poly|)
[mk-app] #14246 or #10602 #12470 #12471 #12472 #12473 #12474 #14227 #12476 #12477 #12478 #14245
[inst-discovered] theory-solving 0x0 basic# ; #14246
[mk-app] #14247 = #14246 #14246
[instance] 0x0 #14247
[attach-enode] #14247 0
[end-of-instance]
[mk-app] #14247 not #14239
[mk-app] #14248 not #14246
[mk-app] #14249 or #14247 #14248
[mk-app] #14250 not #14249
[mk-app] #14251 and #14239 #14246
[inst-discovered] theory-solving 0x0 basic# ; #14251
[mk-app] #14252 = #14251 #14250
[instance] 0x0 #14252
[attach-enode] #14252 0
[end-of-instance]
[mk-quant] #14251 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #10663 #14250
[attach-var-names] #14251 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #14252 not #10707
[mk-app] #14253 or #14252 #10213
[mk-app] #14254 not #14253
[inst-discovered] theory-solving 0x0 basic# ; #10708
[mk-app] #14255 = #10708 #14254
[instance] 0x0 #14255
[attach-enode] #14255 0
[end-of-instance]
[mk-app] #14255 not #14254
[inst-discovered] theory-solving 0x0 basic# ; #14255
[mk-app] #14256 = #14255 #14253
[instance] 0x0 #14256
[attach-enode] #14256 0
[end-of-instance]
[mk-app] #14255 or #14252 #10213 #10709
[mk-app] #14256 or #14253 #10709
[inst-discovered] theory-solving 0x0 basic# ; #14256
[mk-app] #14257 = #14256 #14255
[instance] 0x0 #14257
[attach-enode] #14257 0
[end-of-instance]
[mk-quant] #14256 internal_vstd!std_specs.option.spec_unwrap_or.?_pre_post_definition 4 #10699 #14255
[attach-var-names] #14256 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14253 or #3429 #2900
[mk-app] #14254 not #14253
[inst-discovered] theory-solving 0x0 basic# ; #4661
[mk-app] #14257 = #4661 #14254
[instance] 0x0 #14257
[attach-enode] #14257 0
[end-of-instance]
[mk-app] #14257 not #14254
[inst-discovered] theory-solving 0x0 basic# ; #14257
[mk-app] #14258 = #14257 #14253
[instance] 0x0 #14258
[attach-enode] #14258 0
[end-of-instance]
[mk-app] #14257 or #3429 #2900 #2910
[mk-app] #14258 or #14253 #2910
[inst-discovered] theory-solving 0x0 basic# ; #14258
[mk-app] #14259 = #14258 #14257
[instance] 0x0 #14259
[attach-enode] #14259 0
[end-of-instance]
[mk-quant] #14258 internal_core__iter__traits__collect__impl&__0_trait_impl_definition 2 #2925 #14257
[attach-var-names] #14258 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #14253 not #10742
[mk-app] #14254 not #10747
[mk-app] #14259 or #14253 #14254
[mk-app] #14260 not #14259
[inst-discovered] theory-solving 0x0 basic# ; #10748
[mk-app] #14261 = #10748 #14260
[instance] 0x0 #14261
[attach-enode] #14261 0
[end-of-instance]
[mk-app] #14261 = #14259 #10723
[mk-app] #14262 not #14261
[mk-app] #14263 = #10723 #14260
[inst-discovered] theory-solving 0x0 basic# ; #14263
[mk-app] #14264 = #14263 #14262
[instance] 0x0 #14264
[attach-enode] #14264 0
[end-of-instance]
[mk-app] #14260 not #14259
[inst-discovered] theory-solving 0x0 basic# ; #14262
[mk-app] #14260 = #14262 #14262
[instance] 0x0 #14260
[attach-enode] #14260 0
[end-of-instance]
[mk-quant] #14260 internal_req__g1!matrix.traits.MatrixMut.add_inplace_a._definition 12 #10736 #14262
[attach-var-names] #14260 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14263 not #10760
[mk-app] #14264 not #10762
[mk-app] #14265 or #14263 #14264
[mk-app] #14266 not #14265
[inst-discovered] theory-solving 0x0 basic# ; #10763
[mk-app] #14267 = #10763 #14266
[instance] 0x0 #14267
[attach-enode] #14267 0
[end-of-instance]
[mk-app] #14267 = #14265 #10751
[mk-app] #14268 not #14267
[mk-app] #14269 = #10751 #14266
[inst-discovered] theory-solving 0x0 basic# ; #14269
[mk-app] #14270 = #14269 #14268
[instance] 0x0 #14270
[attach-enode] #14270 0
[end-of-instance]
[mk-app] #14266 not #14265
[inst-discovered] theory-solving 0x0 basic# ; #14268
[mk-app] #14266 = #14268 #14268
[instance] 0x0 #14266
[attach-enode] #14266 0
[end-of-instance]
[mk-quant] #14266 internal_ens__g1!matrix.traits.MatrixMut.add_inplace_a._definition 13 #10765 #14268
[attach-var-names] #14266 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #14269 not #10807
[mk-app] #14270 not #10809
[mk-app] #14271 or #14269 #14270
[mk-app] #14272 not #14271
[inst-discovered] theory-solving 0x0 basic# ; #10810
[mk-app] #14273 = #10810 #14272
[instance] 0x0 #14273
[attach-enode] #14273 0
[end-of-instance]
[mk-app] #14273 = #14271 #10797
[mk-app] #14274 not #14273
[mk-app] #14275 = #10797 #14272
[inst-discovered] theory-solving 0x0 basic# ; #14275
[mk-app] #14276 = #14275 #14274
[instance] 0x0 #14276
[attach-enode] #14276 0
[end-of-instance]
[mk-app] #14272 not #14271
[inst-discovered] theory-solving 0x0 basic# ; #14274
[mk-app] #14272 = #14274 #14274
[instance] 0x0 #14272
[attach-enode] #14272 0
[end-of-instance]
[mk-quant] #14272 internal_req__g1!matrix.traits.MatrixMut.sub_inplace_a._definition 12 #10804 #14274
[attach-var-names] #14272 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14275 not #10815
[mk-app] #14276 or #14275 #14264
[mk-app] #14277 not #14276
[inst-discovered] theory-solving 0x0 basic# ; #10816
[mk-app] #14278 = #10816 #14277
[instance] 0x0 #14278
[attach-enode] #14278 0
[end-of-instance]
[mk-app] #14278 = #14276 #10813
[mk-app] #14279 not #14278
[mk-app] #14280 = #10813 #14277
[inst-discovered] theory-solving 0x0 basic# ; #14280
[mk-app] #14281 = #14280 #14279
[instance] 0x0 #14281
[attach-enode] #14281 0
[end-of-instance]
[mk-app] #14277 not #14276
[inst-discovered] theory-solving 0x0 basic# ; #14279
[mk-app] #14277 = #14279 #14279
[instance] 0x0 #14277
[attach-enode] #14277 0
[end-of-instance]
[mk-quant] #14277 internal_ens__g1!matrix.traits.MatrixMut.sub_inplace_a._definition 13 #10818 #14279
[attach-var-names] #14277 (|b!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[mk-app] #14280 or #13082 #5370
[mk-app] #14281 not #14280
[inst-discovered] theory-solving 0x0 basic# ; #10839
[mk-app] #14282 = #10839 #14281
[instance] 0x0 #14282
[attach-enode] #14282 0
[end-of-instance]
[mk-app] #14282 not #14281
[inst-discovered] theory-solving 0x0 basic# ; #14282
[mk-app] #14283 = #14282 #14280
[instance] 0x0 #14283
[attach-enode] #14283 0
[end-of-instance]
[mk-app] #14281 or #192 #13082 #5370 #10827
[mk-app] #14282 or #192 #14280 #10827
[inst-discovered] theory-solving 0x0 basic# ; #14282
[mk-app] #14283 = #14282 #14281
[instance] 0x0 #14283
[attach-enode] #14283 0
[end-of-instance]
[mk-quant] #14280 user_g1__g__is_mx_0 1 #10830 #14281
[attach-var-names] #14280 (|i$| ; |Poly|)
[mk-app] #14282 not #14280
[mk-app] #14283 or #12482 #14282
[mk-app] #14284 not #14283
[mk-app] #14285 and #10824 #14280
[inst-discovered] theory-solving 0x0 basic# ; #14285
[mk-app] #14286 = #14285 #14284
[instance] 0x0 #14286
[attach-enode] #14286 0
[end-of-instance]
[mk-app] #14285 or #12469 #14284
[mk-app] #14286 not #12491
[mk-app] #14287 or #14286 #12511
[mk-app] #14288 not #14287
[inst-discovered] theory-solving 0x0 basic# ; #12512
[mk-app] #14289 = #12512 #14288
[instance] 0x0 #14289
[attach-enode] #14289 0
[end-of-instance]
[mk-app] #14289 not #14288
[inst-discovered] theory-solving 0x0 basic# ; #14289
[mk-app] #14290 = #14289 #14287
[instance] 0x0 #14290
[attach-enode] #14290 0
[end-of-instance]
[mk-app] #14288 or #12484 #14286 #12511 #12499
[mk-app] #14289 or #12484 #14287 #12499
[inst-discovered] theory-solving 0x0 basic# ; #14289
[mk-app] #14290 = #14289 #14288
[instance] 0x0 #14290
[attach-enode] #14290 0
[end-of-instance]
[mk-app] #14287 not #14288
[mk-app] #14289 or #10822 #12482 #14287
[inst-discovered] theory-solving 0x0 basic# ; #14289
[mk-app] #14290 = #14289 #14289
[instance] 0x0 #14290
[attach-enode] #14290 0
[end-of-instance]
[mk-app] #14290 not #14285
[mk-app] #14291 not #14289
[mk-app] #14292 or #14290 #14291
[mk-app] #14293 not #14292
[mk-app] #14294 and #14285 #14289
[inst-discovered] theory-solving 0x0 basic# ; #14294
[mk-app] #14295 = #14294 #14293
[instance] 0x0 #14295
[attach-enode] #14295 0
[end-of-instance]
[mk-quant] #14294 internal_g1!g.is_mx.?_definition 3 #10834 #14293
[attach-var-names] #14294 (|c!| ; |Poly|) (|r!| ; |Poly|) (|a!| ; |Poly|)
[mk-app] #14295 or #10844 #14294
[mk-app] #14296 or #13110 #192
[mk-app] #14297 not #14296
[inst-discovered] theory-solving 0x0 basic# ; #10849
[mk-app] #14298 = #10849 #14297
[instance] 0x0 #14298
[attach-enode] #14298 0
[end-of-instance]
[mk-app] #14298 not #14297
[inst-discovered] theory-solving 0x0 basic# ; #14298
[mk-app] #14299 = #14298 #14296
[instance] 0x0 #14299
[attach-enode] #14299 0
[end-of-instance]
[mk-app] #14298 or #12341 #6446 #5370
[mk-app] #14299 not #14298
[inst-discovered] theory-solving 0x0 basic# ; #10868
[mk-app] #14300 = #10868 #14299
[instance] 0x0 #14300
[attach-enode] #14300 0
[end-of-instance]
[mk-app] #14300 not #14299
[inst-discovered] theory-solving 0x0 basic# ; #14300
[mk-app] #14301 = #14300 #14298
[instance] 0x0 #14301
[attach-enode] #14301 0
[end-of-instance]
[mk-app] #14299 or #13110 #192 #12341 #6446 #5370 #10854
[mk-app] #14300 or #14296 #14298 #10854
[inst-discovered] theory-solving 0x0 basic# ; #14300
[mk-app] #14301 = #14300 #14299
[instance] 0x0 #14301
[attach-enode] #14301 0
[end-of-instance]
[mk-quant] #14298 user_g1__g__lower_0 2 #10857 #14299
[attach-var-names] #14298 (|j$| ; |Poly|) (|i$| ; |Poly|)
[mk-app] #14296 or #12504 #14298
[mk-app] #14297 not #12507
[mk-app] #14300 not #12520
[mk-app] #14301 or #14297 #14300
[mk-app] #14302 not #14301
[inst-discovered] theory-solving 0x0 basic# ; #12521
[mk-app] #14303 = #12521 #14302
[instance] 0x0 #14303
[attach-enode] #14303 0
[end-of-instance]
[mk-app] #14303 not #14302
[inst-discovered] theory-solving 0x0 basic# ; #14303
[mk-app] #14304 = #14303 #14301
[instance] 0x0 #14304
[attach-enode] #14304 0
[end-of-instance]
[mk-app] #14302 not #12524
[mk-app] #14303 or #14302 #12549 #12553
[mk-app] #14304 not #14303
[inst-discovered] theory-solving 0x0 basic# ; #12554
[mk-app] #14305 = #12554 #14304
[instance] 0x0 #14305
[attach-enode] #14305 0
[end-of-instance]
[mk-app] #14305 not #14304
[inst-discovered] theory-solving 0x0 basic# ; #14305
[mk-app] #14306 = #14305 #14303
[instance] 0x0 #14306
[attach-enode] #14306 0
[end-of-instance]
[mk-app] #14304 or #14297 #14300 #14302 #12549 #12553 #12538
[mk-app] #14305 or #14301 #14303 #12538
[inst-discovered] theory-solving 0x0 basic# ; #14305
[mk-app] #14306 = #14305 #14304
[instance] 0x0 #14306
[attach-enode] #14306 0
[end-of-instance]
[mk-app] #14303 not #14304
[mk-app] #14301 or #10848 #14303
[inst-discovered] theory-solving 0x0 basic# ; #14301
[mk-app] #14305 = #14301 #14301
[instance] 0x0 #14305
[attach-enode] #14305 0
[end-of-instance]
[mk-app] #14305 not #14296
[mk-app] #14306 not #14301
[mk-app] #14307 or #14305 #14306
[mk-app] #14308 not #14307
[mk-app] #14309 and #14296 #14301
[inst-discovered] theory-solving 0x0 basic# ; #14309
[mk-app] #14310 = #14309 #14308
[instance] 0x0 #14310
[attach-enode] #14310 0
[end-of-instance]
[mk-quant] #14309 internal_g1!g.lower.?_definition 2 #10860 #14308
[attach-var-names] #14309 (|n!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #14310 or #10866 #14309
[mk-app] #14311 not #10880
[mk-app] #14312 or #14311 #13203 #13154 #13110
[mk-app] #14313 not #14312
[inst-discovered] theory-solving 0x0 basic# ; #10881
[mk-app] #14314 = #10881 #14313
[instance] 0x0 #14314
[attach-enode] #14314 0
[end-of-instance]
[mk-app] #14314 not #14313
[inst-discovered] theory-solving 0x0 basic# ; #14314
[mk-app] #14315 = #14314 #14312
[instance] 0x0 #14315
[attach-enode] #14315 0
[end-of-instance]
[mk-app] #14314 or #14311 #13203 #13154 #13110 #10897
[mk-app] #14315 or #14312 #10897
[inst-discovered] theory-solving 0x0 basic# ; #14315
[mk-app] #14316 = #14315 #14314
[instance] 0x0 #14316
[attach-enode] #14316 0
[end-of-instance]
[mk-quant] #14315 internal_g1!g.cdot._fuel_to_body_definition 5 #10899 #14314
[attach-var-names] #14315 (|fuel%| ; |Fuel|) (|m!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #14312 not #10905
[mk-app] #14313 or #14312 #13154 #13110 #192
[mk-app] #14316 not #14313
[inst-discovered] theory-solving 0x0 basic# ; #10906
[mk-app] #14317 = #10906 #14316
[instance] 0x0 #14317
[attach-enode] #14317 0
[end-of-instance]
[mk-app] #14317 not #14316
[inst-discovered] theory-solving 0x0 basic# ; #14317
[mk-app] #14318 = #14317 #14313
[instance] 0x0 #14318
[attach-enode] #14318 0
[end-of-instance]
[mk-app] #14317 or #14312 #13154 #13110 #192 #10911
[mk-app] #14318 or #14313 #10911
[inst-discovered] theory-solving 0x0 basic# ; #14318
[mk-app] #14319 = #14318 #14317
[instance] 0x0 #14319
[attach-enode] #14319 0
[end-of-instance]
[mk-quant] #14318 internal_g1!g.cdot.?_definition 4 #10913 #14317
[attach-var-names] #14318 (|m!| ; |Poly|) (|j!| ; |Poly|) (|i!| ; |Poly|) (|l!| ; |Poly|)
[mk-app] #14313 or #10919 #14318
[mk-app] #14316 or #13082 #5266
[mk-app] #14319 not #14316
[inst-discovered] theory-solving 0x0 basic# ; #10956
[mk-app] #14320 = #10956 #14319
[instance] 0x0 #14320
[attach-enode] #14320 0
[end-of-instance]
[mk-app] #14320 not #14319
[inst-discovered] theory-solving 0x0 basic# ; #14320
[mk-app] #14321 = #14320 #14316
[instance] 0x0 #14321
[attach-enode] #14321 0
[end-of-instance]
[mk-app] #14319 or #192 #13082 #5266 #10958
[mk-app] #14320 or #192 #14316 #10958
[inst-discovered] theory-solving 0x0 basic# ; #14320
[mk-app] #14321 = #14320 #14319
[instance] 0x0 #14321
[attach-enode] #14321 0
[end-of-instance]
[mk-quant] #14316 user_g1__g__pchol_0 1 #10931 #14319
[attach-var-names] #14316 (|i$| ; |Poly|)
[mk-app] #14320 or #13110 #192
[mk-app] #14321 not #14320
[inst-discovered] theory-solving 0x0 basic# ; #10849
[mk-app] #14322 = #10849 #14321
[instance] 0x0 #14322
[attach-enode] #14322 0
[end-of-instance]
[mk-app] #14322 not #14321
[inst-discovered] theory-solving 0x0 basic# ; #14322
[mk-app] #14323 = #14322 #14320
[instance] 0x0 #14323
[attach-enode] #14323 0
[end-of-instance]
[mk-app] #14322 or #12341 #5607 #10955 #10965
[mk-app] #14323 not #14322
[inst-discovered] theory-solving 0x0 basic# ; #10967
[mk-app] #14324 = #10967 #14323
[instance] 0x0 #14324
[attach-enode] #14324 0
[end-of-instance]
[mk-app] #14324 not #14323
[inst-discovered] theory-solving 0x0 basic# ; #14324
[mk-app] #14325 = #14324 #14322
[instance] 0x0 #14325
[attach-enode] #14325 0
[end-of-instance]
[mk-app] #14323 or #13110 #192 #12341 #5607 #10955 #10965 #10944
[mk-app] #14324 or #14320 #14322 #10944
[inst-discovered] theory-solving 0x0 basic# ; #14324
[mk-app] #14325 = #14324 #14323
[instance] 0x0 #14325
[attach-enode] #14325 0
[end-of-instance]
[mk-quant] #14322 user_g1__g__pchol_1 2 #10947 #14323
[attach-var-names] #14322 (|j$| ; |Poly|) (|i$| ; |Poly|)
[mk-app] #14320 not #14316
[mk-app] #14321 not #14322
[mk-app] #14324 or #14320 #14321
[mk-app] #14325 not #14324
[mk-app] #14326 and #14316 #14322
[inst-discovered] theory-solving 0x0 basic# ; #14326
[mk-app] #14327 = #14326 #14325
[instance] 0x0 #14327
[attach-enode] #14327 0
[end-of-instance]
[mk-app] #14326 or #12542 #14325
[mk-app] #14327 not #12562
[mk-app] #14328 or #14327 #12613
[mk-app] #14329 not #14328
[inst-discovered] theory-solving 0x0 basic# ; #12614
[mk-app] #14330 = #12614 #14329
[instance] 0x0 #14330
[attach-enode] #14330 0
[end-of-instance]
[mk-app] #14330 not #14329
[inst-discovered] theory-solving 0x0 basic# ; #14330
[mk-app] #14331 = #14330 #14328
[instance] 0x0 #14331
[attach-enode] #14331 0
[end-of-instance]
[mk-app] #14329 or #12545 #14327 #12613 #12572
[mk-app] #14330 or #12545 #14328 #12572
[inst-discovered] theory-solving 0x0 basic# ; #14330
[mk-app] #14331 = #14330 #14329
[instance] 0x0 #14331
[attach-enode] #14331 0
[end-of-instance]
[mk-app] #14328 not #14329
[mk-app] #14330 not #12577
[mk-app] #14331 not #12578
[mk-app] #14332 or #14330 #14331
[mk-app] #14333 not #14332
[inst-discovered] theory-solving 0x0 basic# ; #12579
[mk-app] #14334 = #12579 #14333
[instance] 0x0 #14334
[attach-enode] #14334 0
[end-of-instance]
[mk-app] #14334 not #14333
[inst-discovered] theory-solving 0x0 basic# ; #14334
[mk-app] #14335 = #14334 #14332
[instance] 0x0 #14335
[attach-enode] #14335 0
[end-of-instance]
[mk-app] #14333 not #12582
[mk-app] #14334 not #12621
[mk-app] #14335 or #14333 #12585 #14334 #12624
[mk-app] #14336 not #14335
[inst-discovered] theory-solving 0x0 basic# ; #12626
[mk-app] #14337 = #12626 #14336
[instance] 0x0 #14337
[attach-enode] #14337 0
[end-of-instance]
[mk-app] #14337 not #14336
[inst-discovered] theory-solving 0x0 basic# ; #14337
[mk-app] #14338 = #14337 #14335
[instance] 0x0 #14338
[attach-enode] #14338 0
[end-of-instance]
[mk-app] #14336 or #14330 #14331 #14333 #12585 #14334 #12624 #12601
[mk-app] #14337 or #14332 #14335 #12601
[inst-discovered] theory-solving 0x0 basic# ; #14337
[mk-app] #14338 = #14337 #14336
[instance] 0x0 #14338
[attach-enode] #14338 0
[end-of-instance]
[mk-app] #14335 not #14336
[mk-app] #14332 or #10923 #14328 #14335
[inst-discovered] theory-solving 0x0 basic# ; #14332
[mk-app] #14337 = #14332 #14332
[instance] 0x0 #14337
[attach-enode] #14337 0
[end-of-instance]
[mk-app] #14337 not #14326
[mk-app] #14338 not #14332
[mk-app] #14339 or #14337 #14338
[mk-app] #14340 not #14339
[mk-app] #14341 and #14326 #14332
[inst-discovered] theory-solving 0x0 basic# ; #14341
[mk-app] #14342 = #14341 #14340
[instance] 0x0 #14342
[attach-enode] #14342 0
[end-of-instance]
[mk-quant] #14341 internal_g1!g.pchol.?_definition 4 #10951 #14340
[attach-var-names] #14341 (|c!| ; |Poly|) (|n!| ; |Poly|) (|l!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #14342 or #10971 #14341
[mk-app] #14343 not #10976
[mk-app] #14344 not #10978
[mk-app] #14345 or #14343 #12504 #14344
[mk-app] #14346 not #14345
[inst-discovered] theory-solving 0x0 basic# ; #10984
[mk-app] #14347 = #10984 #14346
[instance] 0x0 #14347
[attach-enode] #14347 0
[end-of-instance]
[mk-app] #14347 = #14345 #10975
[mk-app] #14348 not #14347
[mk-app] #14349 = #10975 #14346
[inst-discovered] theory-solving 0x0 basic# ; #14349
[mk-app] #14350 = #14349 #14348
[instance] 0x0 #14350
[attach-enode] #14350 0
[end-of-instance]
[mk-app] #14346 not #14345
[inst-discovered] theory-solving 0x0 basic# ; #14348
[mk-app] #14346 = #14348 #14348
[instance] 0x0 #14346
[attach-enode] #14346 0
[end-of-instance]
[mk-quant] #14346 internal_g1!g.is_chol.?_definition 3 #10981 #14348
[attach-var-names] #14346 (|n!| ; |Poly|) (|l!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #14349 or #10987 #14346
[mk-app] #14350 not #12608
[mk-app] #14351 not #12609
[mk-app] #14352 or #14350 #14351
[mk-app] #14353 not #14352
[inst-discovered] theory-solving 0x0 basic# ; #12630
[mk-app] #14354 = #12630 #14353
[instance] 0x0 #14354
[attach-enode] #14354 0
[end-of-instance]
[mk-app] #14354 or #12606 #14353
[mk-app] #14355 not #10992
[mk-app] #14356 or #2084 #14355
[mk-app] #14357 not #14356
[inst-discovered] theory-solving 0x0 basic# ; #10993
[mk-app] #14358 = #10993 #14357
[instance] 0x0 #14358
[attach-enode] #14358 0
[end-of-instance]
[mk-app] #14358 not #14357
[inst-discovered] theory-solving 0x0 basic# ; #14358
[mk-app] #14359 = #14358 #14356
[instance] 0x0 #14359
[attach-enode] #14359 0
[end-of-instance]
[mk-quant] #14358 user_g1__g__has_chol_0 1 #10994 #14356
[attach-var-names] #14358 (|m$| ; |Poly|)
[mk-app] #14357 or #10991 #14358
[mk-app] #14359 not #14354
[mk-app] #14360 not #14357
[mk-app] #14361 or #14359 #14360
[mk-app] #14362 not #14361
[mk-app] #14363 and #14354 #14357
[inst-discovered] theory-solving 0x0 basic# ; #14363
[mk-app] #14364 = #14363 #14362
[instance] 0x0 #14364
[attach-enode] #14364 0
[end-of-instance]
[mk-quant] #14363 internal_g1!g.has_chol.?_definition 2 #10997 #14362
[attach-var-names] #14363 (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #14364 or #11000 #14363
[mk-app] #14365 not #11015
[mk-app] #14366 not #11020
[mk-app] #14367 or #14365 #14366
[mk-app] #14368 not #14367
[inst-discovered] theory-solving 0x0 basic# ; #11021
[mk-app] #14369 = #11021 #14368
[instance] 0x0 #14369
[attach-enode] #14369 0
[end-of-instance]
[mk-app] #14369 = #14367 #11002
[mk-app] #14370 not #14369
[mk-app] #14371 = #11002 #14368
[inst-discovered] theory-solving 0x0 basic# ; #14371
[mk-app] #14372 = #14371 #14370
[instance] 0x0 #14372
[attach-enode] #14372 0
[end-of-instance]
[mk-app] #14368 not #14367
[inst-discovered] theory-solving 0x0 basic# ; #14370
[mk-app] #14368 = #14370 #14370
[instance] 0x0 #14368
[attach-enode] #14368 0
[end-of-instance]
[mk-quant] #14368 internal_req__g1!g.chol_begin._definition 4 #11012 #14370
[attach-var-names] #14368 (|n!| ; |Int|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14371 not #11042
[mk-app] #14372 not #11049
[mk-app] #14373 or #14371 #14372
[mk-app] #14374 not #14373
[inst-discovered] theory-solving 0x0 basic# ; #11050
[mk-app] #14375 = #11050 #14374
[instance] 0x0 #14375
[attach-enode] #14375 0
[end-of-instance]
[mk-app] #14375 = #14373 #11029
[mk-app] #14376 not #14375
[mk-app] #14377 = #11029 #14374
[inst-discovered] theory-solving 0x0 basic# ; #14377
[mk-app] #14378 = #14377 #14376
[instance] 0x0 #14378
[attach-enode] #14378 0
[end-of-instance]
[mk-app] #14374 not #14373
[inst-discovered] theory-solving 0x0 basic# ; #14376
[mk-app] #14374 = #14376 #14376
[instance] 0x0 #14374
[attach-enode] #14374 0
[end-of-instance]
[mk-quant] #14374 internal_req__g1!g.chol_open._definition 7 #11039 #14376
[attach-var-names] #14374 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14377 not #11087
[mk-app] #14378 not #11095
[mk-app] #14379 or #14377 #14378
[mk-app] #14380 not #14379
[inst-discovered] theory-solving 0x0 basic# ; #11096
[mk-app] #14381 = #11096 #14380
[instance] 0x0 #14381
[attach-enode] #14381 0
[end-of-instance]
[mk-app] #14381 = #14379 #11074
[mk-app] #14382 not #14381
[mk-app] #14383 = #11074 #14380
[inst-discovered] theory-solving 0x0 basic# ; #14383
[mk-app] #14384 = #14383 #14382
[instance] 0x0 #14384
[attach-enode] #14384 0
[end-of-instance]
[mk-app] #14380 not #14379
[inst-discovered] theory-solving 0x0 basic# ; #14382
[mk-app] #14380 = #14382 #14382
[instance] 0x0 #14380
[attach-enode] #14380 0
[end-of-instance]
[mk-quant] #14380 internal_req__g1!g.chol_first._definition 8 #11084 #14382
[attach-var-names] #14380 (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14383 not #11100
[mk-app] #14384 not #11116
[mk-app] #14385 not #11110
[mk-app] #14386 or #14383 #14384 #11120 #14385
[mk-app] #14387 not #14386
[inst-discovered] theory-solving 0x0 basic# ; #11122
[mk-app] #14388 = #11122 #14387
[instance] 0x0 #14388
[attach-enode] #14388 0
[end-of-instance]
[mk-app] #14388 = #14386 #11088
[mk-app] #14389 not #14388
[mk-app] #14390 = #11088 #14387
[inst-discovered] theory-solving 0x0 basic# ; #14390
[mk-app] #14391 = #14390 #14389
[instance] 0x0 #14391
[attach-enode] #14391 0
[end-of-instance]
[mk-app] #14387 not #14386
[inst-discovered] theory-solving 0x0 basic# ; #14389
[mk-app] #14387 = #14389 #14389
[instance] 0x0 #14387
[attach-enode] #14387 0
[end-of-instance]
[mk-quant] #14387 internal_ens__g1!g.chol_first._definition 8 #11113 #14389
[attach-var-names] #14387 (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14390 or #345 #2679
[mk-app] #14391 not #14390
[inst-discovered] theory-solving 0x0 basic# ; #2683
[mk-app] #14392 = #2683 #14391
[instance] 0x0 #14392
[attach-enode] #14392 0
[end-of-instance]
[mk-app] #14392 or #11143 #14391
[mk-app] #14393 or #11047 #11090
[mk-app] #14394 not #14393
[inst-discovered] theory-solving 0x0 basic# ; #11154
[mk-app] #14395 = #11154 #14394
[instance] 0x0 #14395
[attach-enode] #14395 0
[end-of-instance]
[mk-app] #14395 or #11155 #14394
[mk-app] #14396 not #14392
[mk-app] #14397 not #11151
[mk-app] #14398 not #14395
[mk-app] #14399 not #11161
[mk-app] #14400 or #14396 #14397 #14398 #14399
[mk-app] #14401 not #14400
[mk-app] #14402 and #14392 #11151 #14395 #11161
[inst-discovered] theory-solving 0x0 basic# ; #14402
[mk-app] #14403 = #14402 #14401
[instance] 0x0 #14403
[attach-enode] #14403 0
[end-of-instance]
[mk-app] #14402 = #14400 #11115
[mk-app] #14403 not #14402
[mk-app] #14404 = #11115 #14401
[inst-discovered] theory-solving 0x0 basic# ; #14404
[mk-app] #14405 = #14404 #14403
[instance] 0x0 #14405
[attach-enode] #14405 0
[end-of-instance]
[mk-app] #14401 not #14400
[inst-discovered] theory-solving 0x0 basic# ; #14403
[mk-app] #14401 = #14403 #14403
[instance] 0x0 #14401
[attach-enode] #14401 0
[end-of-instance]
[mk-quant] #14401 internal_req__g1!g.chol_next._definition 8 #11139 #14403
[attach-var-names] #14401 (|k!| ; |Int|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14404 not #11197
[mk-app] #14405 not #11205
[mk-app] #14406 not #11212
[mk-app] #14407 not #11191
[mk-app] #14408 or #14404 #11199 #14405 #11209 #14406 #11216 #11221 #11227 #14407
[mk-app] #14409 not #14408
[inst-discovered] theory-solving 0x0 basic# ; #11229
[mk-app] #14410 = #11229 #14409
[instance] 0x0 #14410
[attach-enode] #14410 0
[end-of-instance]
[mk-app] #14410 = #14408 #11141
[mk-app] #14411 not #14410
[mk-app] #14412 = #11141 #14409
[inst-discovered] theory-solving 0x0 basic# ; #14412
[mk-app] #14413 = #14412 #14411
[instance] 0x0 #14413
[attach-enode] #14413 0
[end-of-instance]
[mk-app] #14409 not #14408
[inst-discovered] theory-solving 0x0 basic# ; #14411
[mk-app] #14409 = #14411 #14411
[instance] 0x0 #14409
[attach-enode] #14409 0
[end-of-instance]
[mk-quant] #14409 internal_ens__g1!g.chol_next._definition 8 #11194 #14411
[attach-var-names] #14409 (|k!| ; |Int|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14412 not #11234
[mk-app] #14413 not #11236
[mk-app] #14414 or #14412 #14413
[mk-app] #14415 not #14414
[inst-discovered] theory-solving 0x0 basic# ; #11237
[mk-app] #14416 = #11237 #14415
[instance] 0x0 #14416
[attach-enode] #14416 0
[end-of-instance]
[mk-app] #14416 = #14414 #11218
[mk-app] #14417 not #14416
[mk-app] #14418 = #11218 #14415
[inst-discovered] theory-solving 0x0 basic# ; #14418
[mk-app] #14419 = #14418 #14417
[instance] 0x0 #14419
[attach-enode] #14419 0
[end-of-instance]
[mk-app] #14415 not #14414
[inst-discovered] theory-solving 0x0 basic# ; #14417
[mk-app] #14415 = #14417 #14417
[instance] 0x0 #14415
[attach-enode] #14415 0
[end-of-instance]
[mk-quant] #14415 internal_req__g1!g.chol_fail._definition 7 #11207 #14417
[attach-var-names] #14415 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14418 not #11247
[mk-app] #14419 or #11243 #14418
[mk-app] #14420 not #14419
[inst-discovered] theory-solving 0x0 basic# ; #11248
[mk-app] #14421 = #11248 #14420
[instance] 0x0 #14421
[attach-enode] #14421 0
[end-of-instance]
[mk-app] #14421 = #14419 #11240
[mk-app] #14422 not #14421
[mk-app] #14423 = #11240 #14420
[inst-discovered] theory-solving 0x0 basic# ; #14423
[mk-app] #14424 = #14423 #14422
[instance] 0x0 #14424
[attach-enode] #14424 0
[end-of-instance]
[mk-app] #14420 not #14419
[inst-discovered] theory-solving 0x0 basic# ; #14422
[mk-app] #14420 = #14422 #14422
[instance] 0x0 #14420
[attach-enode] #14420 0
[end-of-instance]
[mk-quant] #14420 internal_ens__g1!g.chol_fail._definition 7 #11250 #14422
[attach-var-names] #14420 (|div!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14423 or #13082 #11327
[mk-app] #14424 not #14423
[inst-discovered] theory-solving 0x0 basic# ; #11331
[mk-app] #14425 = #11331 #14424
[instance] 0x0 #14425
[attach-enode] #14425 0
[end-of-instance]
[mk-app] #14425 not #14424
[inst-discovered] theory-solving 0x0 basic# ; #14425
[mk-app] #14426 = #14425 #14423
[instance] 0x0 #14426
[attach-enode] #14426 0
[end-of-instance]
[mk-app] #14424 or #192 #13082 #11327 #11299
[mk-app] #14425 or #192 #14423 #11299
[inst-discovered] theory-solving 0x0 basic# ; #14425
[mk-app] #14426 = #14425 #14424
[instance] 0x0 #14426
[attach-enode] #14426 0
[end-of-instance]
[mk-quant] #14423 user_g1__g__chol_diag_0 1 #11302 #14424
[attach-var-names] #14423 (|q$| ; |Poly|)
[mk-app] #14425 or #11325 #14423
[mk-app] #14426 not #14425
[mk-app] #14427 or #12641 #12642 #12643 #12644 #12645 #12646 #12647 #14426
[mk-app] #14428 not #14427
[mk-app] #14429 and #11310 #11312 #11316 #11318 #11320 #11323 #11324 #14425
[inst-discovered] theory-solving 0x0 basic# ; #14429
[mk-app] #14430 = #14429 #14428
[instance] 0x0 #14430
[attach-enode] #14430 0
[end-of-instance]
[mk-app] #14429 or #12640 #14428
[mk-app] #14430 not #12652
[mk-app] #14431 or #14430 #12676
[mk-app] #14432 not #14431
[inst-discovered] theory-solving 0x0 basic# ; #12677
[mk-app] #14433 = #12677 #14432
[instance] 0x0 #14433
[attach-enode] #14433 0
[end-of-instance]
[mk-app] #14433 not #14432
[inst-discovered] theory-solving 0x0 basic# ; #14433
[mk-app] #14434 = #14433 #14431
[instance] 0x0 #14434
[attach-enode] #14434 0
[end-of-instance]
[mk-app] #14432 or #12650 #14430 #12676 #12664
[mk-app] #14433 or #12650 #14431 #12664
[inst-discovered] theory-solving 0x0 basic# ; #14433
[mk-app] #14434 = #14433 #14432
[instance] 0x0 #14434
[attach-enode] #14434 0
[end-of-instance]
[mk-app] #14431 not #14432
[mk-app] #14433 or #11325 #12650 #14430 #12676 #12664
[mk-app] #14434 not #14433
[mk-app] #14435 and #11288 #14431
[inst-discovered] theory-solving 0x0 basic# ; #14435
[mk-app] #14436 = #14435 #14434
[instance] 0x0 #14436
[attach-enode] #14436 0
[end-of-instance]
[mk-app] #14432 or #11253 #12641 #12642 #12643 #12644 #12645 #12646 #12647 #14434
[inst-discovered] theory-solving 0x0 basic# ; #14432
[mk-app] #14431 = #14432 #14432
[instance] 0x0 #14431
[attach-enode] #14431 0
[end-of-instance]
[mk-app] #14431 not #14429
[mk-app] #14435 not #14432
[mk-app] #14436 or #14431 #14435
[mk-app] #14437 not #14436
[mk-app] #14438 and #14429 #14432
[inst-discovered] theory-solving 0x0 basic# ; #14438
[mk-app] #14439 = #14438 #14437
[instance] 0x0 #14439
[attach-enode] #14439 0
[end-of-instance]
[mk-quant] #14438 internal_req__g1!g.chol_diag._definition 11 #11307 #14437
[attach-var-names] #14438 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|div0!| ; |Real|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14439 or #11379 #11383
[mk-app] #14440 not #14439
[inst-discovered] theory-solving 0x0 basic# ; #11387
[mk-app] #14441 = #11387 #14440
[instance] 0x0 #14441
[attach-enode] #14441 0
[end-of-instance]
[mk-app] #14441 or #11388 #14440
[mk-app] #14442 not #11374
[mk-app] #14443 not #14441
[mk-app] #14444 not #11391
[mk-app] #14445 not #11393
[mk-app] #14446 not #11395
[mk-app] #14447 or #14442 #14443 #14444 #14445 #14446
[mk-app] #14448 not #14447
[mk-app] #14449 and #11374 #14441 #11391 #11393 #11395
[inst-discovered] theory-solving 0x0 basic# ; #14449
[mk-app] #14450 = #14449 #14448
[instance] 0x0 #14450
[attach-enode] #14450 0
[end-of-instance]
[mk-app] #14449 = #14447 #11346
[mk-app] #14450 not #14449
[mk-app] #14451 = #11346 #14448
[inst-discovered] theory-solving 0x0 basic# ; #14451
[mk-app] #14452 = #14451 #14450
[instance] 0x0 #14452
[attach-enode] #14452 0
[end-of-instance]
[mk-app] #14448 not #14447
[inst-discovered] theory-solving 0x0 basic# ; #14450
[mk-app] #14448 = #14450 #14450
[instance] 0x0 #14448
[attach-enode] #14448 0
[end-of-instance]
[mk-quant] #14448 internal_req__g1!g.chol_below._definition 11 #11371 #14450
[attach-var-names] #14448 (|v!| ; |Poly|) (|sum!| ; |Real|) (|div!| ; |Real|) (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|tj!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14451 not #11429
[mk-app] #14452 not #11431
[mk-app] #14453 or #14451 #14452
[mk-app] #14454 not #14453
[inst-discovered] theory-solving 0x0 basic# ; #11432
[mk-app] #14455 = #11432 #14454
[instance] 0x0 #14455
[attach-enode] #14455 0
[end-of-instance]
[mk-app] #14455 = #14453 #11419
[mk-app] #14456 not #14455
[mk-app] #14457 = #11419 #14454
[inst-discovered] theory-solving 0x0 basic# ; #14457
[mk-app] #14458 = #14457 #14456
[instance] 0x0 #14458
[attach-enode] #14458 0
[end-of-instance]
[mk-app] #14454 not #14453
[inst-discovered] theory-solving 0x0 basic# ; #14456
[mk-app] #14454 = #14456 #14456
[instance] 0x0 #14454
[attach-enode] #14454 0
[end-of-instance]
[mk-quant] #14454 internal_req__g1!g.chol_zero_begin._definition 4 #11426 #14456
[attach-var-names] #14454 (|n!| ; |Int|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14457 not #11452
[mk-app] #14458 not #11458
[mk-app] #14459 or #14457 #14458
[mk-app] #14460 not #14459
[inst-discovered] theory-solving 0x0 basic# ; #11459
[mk-app] #14461 = #11459 #14460
[instance] 0x0 #14461
[attach-enode] #14461 0
[end-of-instance]
[mk-app] #14461 = #14459 #11440
[mk-app] #14462 not #14461
[mk-app] #14463 = #11440 #14460
[inst-discovered] theory-solving 0x0 basic# ; #14463
[mk-app] #14464 = #14463 #14462
[instance] 0x0 #14464
[attach-enode] #14464 0
[end-of-instance]
[mk-app] #14460 not #14459
[inst-discovered] theory-solving 0x0 basic# ; #14462
[mk-app] #14460 = #14462 #14462
[instance] 0x0 #14460
[attach-enode] #14460 0
[end-of-instance]
[mk-quant] #14460 internal_req__g1!g.chol_zero_row._definition 6 #11449 #14462
[attach-var-names] #14460 (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14463 or #12375 #783 #2679
[mk-app] #14464 not #14463
[inst-discovered] theory-solving 0x0 basic# ; #11482
[mk-app] #14465 = #11482 #14464
[instance] 0x0 #14465
[attach-enode] #14465 0
[end-of-instance]
[mk-app] #14465 or #11483 #14464
[mk-app] #14466 not #11477
[mk-app] #14467 not #14465
[mk-app] #14468 or #14466 #14467
[mk-app] #14469 not #14468
[mk-app] #14470 and #11477 #14465
[inst-discovered] theory-solving 0x0 basic# ; #14470
[mk-app] #14471 = #14470 #14469
[instance] 0x0 #14471
[attach-enode] #14471 0
[end-of-instance]
[mk-app] #14470 = #14468 #11465
[mk-app] #14471 not #14470
[mk-app] #14472 = #11465 #14469
[inst-discovered] theory-solving 0x0 basic# ; #14472
[mk-app] #14473 = #14472 #14471
[instance] 0x0 #14473
[attach-enode] #14473 0
[end-of-instance]
[mk-app] #14469 not #14468
[inst-discovered] theory-solving 0x0 basic# ; #14471
[mk-app] #14469 = #14471 #14471
[instance] 0x0 #14469
[attach-enode] #14469 0
[end-of-instance]
[mk-quant] #14469 internal_req__g1!g.chol_zero_step._definition 7 #11474 #14471
[attach-var-names] #14469 (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14472 not #11512
[mk-app] #14473 or #12671 #11507 #12672 #14472
[mk-app] #14474 not #14473
[inst-discovered] theory-solving 0x0 basic# ; #11514
[mk-app] #14475 = #11514 #14474
[instance] 0x0 #14475
[attach-enode] #14475 0
[end-of-instance]
[mk-app] #14475 or #12670 #14474
[inst-discovered] theory-solving 0x0 basic# ; #12702
[mk-app] #14476 = #12702 #12702
[instance] 0x0 #14476
[attach-enode] #14476 0
[end-of-instance]
[mk-app] #14476 not #14475
[mk-app] #14477 not #12702
[mk-app] #14478 or #14476 #14477
[mk-app] #14479 not #14478
[mk-app] #14480 and #14475 #12702
[inst-discovered] theory-solving 0x0 basic# ; #14480
[mk-app] #14481 = #14480 #14479
[instance] 0x0 #14481
[attach-enode] #14481 0
[end-of-instance]
[mk-quant] #14480 internal_ens__g1!g.chol_zero_step._definition 7 #11502 #14479
[attach-var-names] #14480 (|j!| ; |Int|) (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14481 not #11526
[mk-app] #14482 not #11530
[mk-app] #14483 or #14481 #14482
[mk-app] #14484 not #14483
[inst-discovered] theory-solving 0x0 basic# ; #11531
[mk-app] #14485 = #11531 #14484
[instance] 0x0 #14485
[attach-enode] #14485 0
[end-of-instance]
[mk-app] #14485 = #14483 #11504
[mk-app] #14486 not #14485
[mk-app] #14487 = #11504 #14484
[inst-discovered] theory-solving 0x0 basic# ; #14487
[mk-app] #14488 = #14487 #14486
[instance] 0x0 #14488
[attach-enode] #14488 0
[end-of-instance]
[mk-app] #14484 not #14483
[inst-discovered] theory-solving 0x0 basic# ; #14486
[mk-app] #14484 = #14486 #14486
[instance] 0x0 #14484
[attach-enode] #14484 0
[end-of-instance]
[mk-quant] #14484 internal_req__g1!g.chol_zero_end._definition 6 #11523 #14486
[attach-var-names] #14484 (|i!| ; |Int|) (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14487 not #11549
[mk-app] #14488 not #11551
[mk-app] #14489 or #14487 #14488
[mk-app] #14490 not #14489
[inst-discovered] theory-solving 0x0 basic# ; #11552
[mk-app] #14491 = #11552 #14490
[instance] 0x0 #14491
[attach-enode] #14491 0
[end-of-instance]
[mk-app] #14491 = #14489 #11537
[mk-app] #14492 not #14491
[mk-app] #14493 = #11537 #14490
[inst-discovered] theory-solving 0x0 basic# ; #14493
[mk-app] #14494 = #14493 #14492
[instance] 0x0 #14494
[attach-enode] #14494 0
[end-of-instance]
[mk-app] #14490 not #14489
[inst-discovered] theory-solving 0x0 basic# ; #14492
[mk-app] #14490 = #14492 #14492
[instance] 0x0 #14490
[attach-enode] #14490 0
[end-of-instance]
[mk-quant] #14490 internal_req__g1!g.chol_finish._definition 6 #11546 #14492
[attach-var-names] #14490 (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14493 not #11560
[mk-app] #14494 not #11561
[mk-app] #14495 not #11563
[mk-app] #14496 or #14493 #14494 #14495
[mk-app] #14497 not #14496
[inst-discovered] theory-solving 0x0 basic# ; #11564
[mk-app] #14498 = #11564 #14497
[instance] 0x0 #14498
[attach-enode] #14498 0
[end-of-instance]
[mk-app] #14498 = #14496 #11555
[mk-app] #14499 not #14498
[mk-app] #14500 = #11555 #14497
[inst-discovered] theory-solving 0x0 basic# ; #14500
[mk-app] #14501 = #14500 #14499
[instance] 0x0 #14501
[attach-enode] #14501 0
[end-of-instance]
[mk-app] #14497 not #14496
[inst-discovered] theory-solving 0x0 basic# ; #14499
[mk-app] #14497 = #14499 #14499
[instance] 0x0 #14497
[attach-enode] #14497 0
[end-of-instance]
[mk-quant] #14497 internal_ens__g1!g.chol_finish._definition 6 #11566 #14499
[attach-var-names] #14497 (|n!| ; |Int|) (|t!| ; |Poly|) (|t1!| ; |Poly|) (|c0!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #14500 not #11583
[mk-app] #14501 not #11587
[mk-app] #14502 not #11592
[mk-app] #14503 or #14500 #14501 #14502
[mk-app] #14504 not #14503
[inst-discovered] theory-solving 0x0 basic# ; #11593
[mk-app] #14505 = #11593 #14504
[instance] 0x0 #14505
[attach-enode] #14505 0
[end-of-instance]
[mk-app] #14505 = #14503 #11568
[mk-app] #14506 not #14505
[mk-app] #14507 = #11568 #14504
[inst-discovered] theory-solving 0x0 basic# ; #14507
[mk-app] #14508 = #14507 #14506
[instance] 0x0 #14508
[attach-enode] #14508 0
[end-of-instance]
[mk-app] #14504 not #14503
[inst-discovered] theory-solving 0x0 basic# ; #14506
[mk-app] #14504 = #14506 #14506
[instance] 0x0 #14504
[attach-enode] #14504 0
[end-of-instance]
[mk-quant] #14504 internal_req__g1!matrix.traits.MatrixMut.cholesky_decompose_lower._definition 9 #11580 #14506
[attach-var-names] #14504 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #14507 not #11598
[mk-app] #14508 not #11612
[mk-app] #14509 not #11606
[mk-app] #14510 or #181 #14507 #14508 #14509
[mk-app] #14511 not #14510
[inst-discovered] theory-solving 0x0 basic# ; #11613
[mk-app] #14512 = #11613 #14511
[instance] 0x0 #14512
[attach-enode] #14512 0
[end-of-instance]
[mk-app] #14512 = #14510 #11596
[mk-app] #14513 not #14512
[mk-app] #14514 = #11596 #14511
[inst-discovered] theory-solving 0x0 basic# ; #14514
[mk-app] #14515 = #14514 #14513
[instance] 0x0 #14515
[attach-enode] #14515 0
[end-of-instance]
[mk-app] #14511 not #14510
[inst-discovered] theory-solving 0x0 basic# ; #14513
[mk-app] #14511 = #14513 #14513
[instance] 0x0 #14511
[attach-enode] #14511 0
[end-of-instance]
[mk-quant] #14511 internal_ens__g1!matrix.traits.MatrixMut.cholesky_decompose_lower._definition 11 #11609 #14513
[attach-var-names] #14511 (|r!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|COLS&| ; |Type|) (|COLS&.| ; |Dcr|) (|ROWS&| ; |Type|) (|ROWS&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|default_ensures| ; |Bool|)
[inst-discovered] theory-solving 0x0 basic# ; #12116
[mk-app] #11613 = #12116 #12116
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11736
[mk-app] #11613 = #11736 #11736
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12427
[mk-app] #11613 = #12427 #12427
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12431
[mk-app] #11613 = #12431 #12431
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12437
[mk-app] #11613 = #12437 #12437
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12236
[mk-app] #11613 = #12236 #12236
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12242
[mk-app] #11613 = #12242 #12242
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12654
[mk-app] #11613 = #12654 #12654
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12658
[mk-app] #11613 = #12658 #12658
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12401
[inst-discovered] theory-solving 0x0 basic# ; #12366
[mk-app] #11613 = #12366 #12366
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12402
[inst-discovered] theory-solving 0x0 basic# ; #12370
[mk-app] #11613 = #12370 #12370
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12654
[mk-app] #11613 = #12654 #12654
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12658
[mk-app] #11613 = #12658 #12658
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #526
[mk-app] #11613 = #526 #526
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9872
[mk-app] #11613 = #9872 #9872
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12136
[mk-app] #11613 = #12136 #12136
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12144
[mk-app] #11613 = #12144 #12144
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12339
[mk-app] #11613 = #12339 #12339
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12345
[mk-app] #11613 = #12345 #12345
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11662
[mk-app] #11613 = #11662 #11662
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11664
[mk-app] #11613 = #11664 #11664
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11666
[mk-app] #11613 = #11666 #11666
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11671
[mk-app] #11613 = #11671 #11671
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12053
[mk-app] #11613 = #12053 #12053
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12057
[mk-app] #11613 = #12057 #12057
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12060
[mk-app] #11613 = #12060 #12060
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12066
[mk-app] #11613 = #12066 #12066
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12072
[inst-discovered] theory-solving 0x0 basic# ; #12494
[mk-app] #11613 = #12494 #12494
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12496
[inst-discovered] theory-solving 0x0 basic# ; #12502
[mk-app] #11613 = #12502 #12502
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11702
[mk-app] #11613 = #11702 #11702
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12566
[mk-app] #11613 = #12566 #12566
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11766
[mk-app] #11613 = #11766 #11766
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1420
[mk-app] #11613 = #1420 #1420
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12309
[mk-app] #11613 = #12309 #12309
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1453
[mk-app] #11613 = #1453 #1453
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1587
[mk-app] #11613 = #1587 #1587
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1470
[mk-app] #11613 = #1470 #1470
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11516
[mk-app] #11613 = #11516 #11516
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10863
[mk-app] #11613 = #10863 #10863
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1501
[mk-app] #11613 = #1501 #1501
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10681
[mk-app] #11613 = #10681 #10681
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10570
[mk-app] #11613 = #10570 #10570
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11636
[mk-app] #11613 = #11636 #11636
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10328
[mk-app] #11613 = #10328 #10328
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10277
[mk-app] #11613 = #10277 #10277
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10214
[mk-app] #11613 = #10214 #10214
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10081
[mk-app] #11613 = #10081 #10081
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9948
[mk-app] #11613 = #9948 #9948
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6412
[mk-app] #11613 = #6412 #6412
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6414
[mk-app] #11613 = #6414 #6414
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5874
[mk-app] #11613 = #5874 #5874
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5883
[mk-app] #11613 = #5883 #5883
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5536
[mk-app] #11613 = #5536 #5536
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1639
[mk-app] #11613 = #1639 #1639
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1590
[mk-app] #11613 = #1590 #1590
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1639
[mk-app] #11613 = #1639 #1639
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2828
[mk-app] #11613 = #2828 #2828
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12717
[mk-app] #11613 = #12717 #12717
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12721
[mk-app] #11613 = #12721 #12721
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12730
[mk-app] #11613 = #12730 #12730
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12739
[mk-app] #11613 = #12739 #12739
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12743
[mk-app] #11613 = #12743 #12743
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12752
[mk-app] #11613 = #12752 #12752
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3002
[mk-app] #11613 = #3002 #3002
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12756
[mk-app] #11613 = #12756 #12756
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12765
[mk-app] #11613 = #12765 #12765
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3035
[mk-app] #11613 = #3035 #3035
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12769
[mk-app] #11613 = #12769 #12769
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12778
[mk-app] #11613 = #12778 #12778
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12787
[mk-app] #11613 = #12787 #12787
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12791
[mk-app] #11613 = #12791 #12791
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1639
[mk-app] #11613 = #1639 #1639
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3117
[mk-app] #11613 = #3117 #3117
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3124
[mk-app] #11613 = #3124 #3124
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12810
[mk-app] #11613 = #12810 #12810
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12839
[mk-app] #11613 = #12839 #12839
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12851
[mk-app] #11613 = #12851 #12851
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12864
[mk-app] #11613 = #12864 #12864
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12871
[mk-app] #11613 = #12871 #12871
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12875
[mk-app] #11613 = #12875 #12875
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12875
[mk-app] #11613 = #12875 #12875
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12882
[mk-app] #11613 = #12882 #12882
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12886
[mk-app] #11613 = #12886 #12886
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12891
[mk-app] #11613 = #12891 #12891
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12896
[mk-app] #11613 = #12896 #12896
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12901
[mk-app] #11613 = #12901 #12901
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12906
[mk-app] #11613 = #12906 #12906
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12911
[mk-app] #11613 = #12911 #12911
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12916
[mk-app] #11613 = #12916 #12916
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12921
[mk-app] #11613 = #12921 #12921
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12926
[mk-app] #11613 = #12926 #12926
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12930
[mk-app] #11613 = #12930 #12930
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12934
[mk-app] #11613 = #12934 #12934
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12954
[mk-app] #11613 = #12954 #12954
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12956
[mk-app] #11613 = #12956 #12956
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12962
[mk-app] #11613 = #12962 #12962
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12964
[mk-app] #11613 = #12964 #12964
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12983
[mk-app] #11613 = #12983 #12983
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12985
[mk-app] #11613 = #12985 #12985
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13003
[mk-app] #11613 = #13003 #13003
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13005
[mk-app] #11613 = #13005 #13005
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13007
[mk-app] #11613 = #13007 #13007
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13009
[mk-app] #11613 = #13009 #13009
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13011
[mk-app] #11613 = #13011 #13011
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13013
[mk-app] #11613 = #13013 #13013
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13015
[mk-app] #11613 = #13015 #13015
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13017
[mk-app] #11613 = #13017 #13017
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13027
[mk-app] #11613 = #13027 #13027
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13029
[mk-app] #11613 = #13029 #13029
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13031
[mk-app] #11613 = #13031 #13031
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13033
[mk-app] #11613 = #13033 #13033
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13035
[mk-app] #11613 = #13035 #13035
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13037
[mk-app] #11613 = #13037 #13037
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13039
[mk-app] #11613 = #13039 #13039
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13041
[mk-app] #11613 = #13041 #13041
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13043
[mk-app] #11613 = #13043 #13043
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13045
[mk-app] #11613 = #13045 #13045
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13047
[mk-app] #11613 = #13047 #13047
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13049
[mk-app] #11613 = #13049 #13049
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13051
[mk-app] #11613 = #13051 #13051
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13053
[mk-app] #11613 = #13053 #13053
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13055
[mk-app] #11613 = #13055 #13055
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13057
[mk-app] #11613 = #13057 #13057
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13072
[mk-app] #11613 = #13072 #13072
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13074
[mk-app] #11613 = #13074 #13074
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13076
[mk-app] #11613 = #13076 #13076
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13078
[mk-app] #11613 = #13078 #13078
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13095
[mk-app] #11613 = #13095 #13095
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13100
[mk-app] #11613 = #13100 #13100
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13103
[mk-app] #11613 = #13103 #13103
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13104
[mk-app] #11613 = #13104 #13104
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13113
[mk-app] #11613 = #13113 #13113
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13116
[mk-app] #11613 = #13116 #13116
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13122
[mk-app] #11613 = #13122 #13122
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13128
[mk-app] #11613 = #13128 #13128
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13130
[mk-app] #11613 = #13130 #13130
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13132
[mk-app] #11613 = #13132 #13132
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13138
[mk-app] #11613 = #13138 #13138
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13140
[mk-app] #11613 = #13140 #13140
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13147
[mk-app] #11613 = #13147 #13147
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13149
[mk-app] #11613 = #13149 #13149
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13153
[mk-app] #11613 = #13153 #13153
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13160
[mk-app] #11613 = #13160 #13160
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13163
[mk-app] #11613 = #13163 #13163
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13170
[mk-app] #11613 = #13170 #13170
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13171
[mk-app] #11613 = #13171 #13171
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13174
[mk-app] #11613 = #13174 #13174
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13176
[mk-app] #11613 = #13176 #13176
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #11613 = #13188 #13188
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13191
[mk-app] #11613 = #13191 #13191
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13193
[mk-app] #11613 = #13193 #13193
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13197
[mk-app] #11613 = #13197 #13197
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13202
[mk-app] #11613 = #13202 #13202
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13213
[mk-app] #11613 = #13213 #13213
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13221
[mk-app] #11613 = #13221 #13221
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13232
[mk-app] #11613 = #13232 #13232
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13234
[mk-app] #11613 = #13234 #13234
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5779
[mk-app] #11613 = #5779 #5779
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13241
[mk-app] #11613 = #13241 #13241
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13246
[mk-app] #11613 = #13246 #13246
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13253
[mk-app] #11613 = #13253 #13253
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13254
[mk-app] #11613 = #13254 #13254
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13257
[mk-app] #11613 = #13257 #13257
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13259
[mk-app] #11613 = #13259 #13259
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13263
[mk-app] #11613 = #13263 #13263
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13266
[mk-app] #11613 = #13266 #13266
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13268
[mk-app] #11613 = #13268 #13268
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13271
[mk-app] #11613 = #13271 #13271
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13274
[mk-app] #11613 = #13274 #13274
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5975
[mk-app] #11613 = #5975 #5975
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13277
[mk-app] #11613 = #13277 #13277
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13285
[mk-app] #11613 = #13285 #13285
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13291
[mk-app] #11613 = #13291 #13291
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13300
[mk-app] #11613 = #13300 #13300
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13306
[mk-app] #11613 = #13306 #13306
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13310
[mk-app] #11613 = #13310 #13310
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13311
[mk-app] #11613 = #13311 #13311
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13316
[mk-app] #11613 = #13316 #13316
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13320
[mk-app] #11613 = #13320 #13320
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13318
[mk-app] #11613 = #13318 #13318
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13324
[mk-app] #11613 = #13324 #13324
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13327
[mk-app] #11613 = #13327 #13327
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6264
[mk-app] #11613 = #6264 #6264
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13329
[mk-app] #11613 = #13329 #13329
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13331
[mk-app] #11613 = #13331 #13331
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13333
[inst-discovered] theory-solving 0x0 basic# ; #13336
[mk-app] #11613 = #13336 #13336
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13341
[mk-app] #11613 = #13341 #13341
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6400
[mk-app] #11613 = #6400 #6400
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13343
[inst-discovered] theory-solving 0x0 basic# ; #13346
[mk-app] #11613 = #13346 #13346
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11799
[mk-app] #11613 = #11799 #11799
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13359
[mk-app] #11613 = #13359 #13359
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6406
[mk-app] #11613 = #6406 #6406
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13371
[mk-app] #11613 = #13371 #13371
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13374
[mk-app] #11613 = #13374 #13374
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13378
[mk-app] #11613 = #13378 #13378
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13380
[mk-app] #11613 = #13380 #13380
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13382
[mk-app] #11613 = #13382 #13382
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13384
[mk-app] #11613 = #13384 #13384
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13388
[mk-app] #11613 = #13388 #13388
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13395
[mk-app] #11613 = #13395 #13395
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13402
[mk-app] #11613 = #13402 #13402
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13409
[mk-app] #11613 = #13409 #13409
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13416
[mk-app] #11613 = #13416 #13416
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13423
[mk-app] #11613 = #13423 #13423
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13430
[mk-app] #11613 = #13430 #13430
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13437
[mk-app] #11613 = #13437 #13437
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13444
[mk-app] #11613 = #13444 #13444
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13451
[mk-app] #11613 = #13451 #13451
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13458
[mk-app] #11613 = #13458 #13458
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13465
[mk-app] #11613 = #13465 #13465
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13473
[mk-app] #11613 = #13473 #13473
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13486
[mk-app] #11613 = #13486 #13486
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13492
[mk-app] #11613 = #13492 #13492
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13492
[inst-discovered] theory-solving 0x0 basic# ; #13495
[mk-app] #11613 = #13495 #13495
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13503
[mk-app] #11613 = #13503 #13503
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13516
[mk-app] #11613 = #13516 #13516
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13523
[mk-app] #11613 = #13523 #13523
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13525
[mk-app] #11613 = #13525 #13525
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13530
[inst-discovered] theory-solving 0x0 basic# ; #13533
[mk-app] #11613 = #13533 #13533
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13536
[mk-app] #11613 = #13536 #13536
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13538
[mk-app] #11613 = #13538 #13538
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #8385
[inst-discovered] theory-solving 0x0 basic# ; #13561
[mk-app] #11613 = #13561 #13561
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13563
[mk-app] #11613 = #13563 #13563
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13567
[mk-app] #11613 = #13567 #13567
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13569
[mk-app] #11613 = #13569 #13569
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13576
[mk-app] #11613 = #13576 #13576
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13579
[mk-app] #11613 = #13579 #13579
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13582
[mk-app] #11613 = #13582 #13582
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13586
[mk-app] #11613 = #13586 #13586
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13589
[mk-app] #11613 = #13589 #13589
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8527
[mk-app] #11613 = #8527 #8527
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13596
[mk-app] #11613 = #13596 #13596
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13600
[mk-app] #11613 = #13600 #13600
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13603
[mk-app] #11613 = #13603 #13603
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13605
[mk-app] #11613 = #13605 #13605
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13607
[mk-app] #11613 = #13607 #13607
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13611
[mk-app] #11613 = #13611 #13611
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13610
[inst-discovered] theory-solving 0x0 basic# ; #13615
[mk-app] #11613 = #13615 #13615
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13617
[inst-discovered] theory-solving 0x0 basic# ; #13620
[mk-app] #11613 = #13620 #13620
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13623
[mk-app] #11613 = #13623 #13623
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13625
[mk-app] #11613 = #13625 #13625
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13627
[inst-discovered] theory-solving 0x0 basic# ; #13630
[mk-app] #11613 = #13630 #13630
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13633
[mk-app] #11613 = #13633 #13633
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13635
[mk-app] #11613 = #13635 #13635
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13637
[inst-discovered] theory-solving 0x0 basic# ; #13640
[mk-app] #11613 = #13640 #13640
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13643
[mk-app] #11613 = #13643 #13643
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13645
[mk-app] #11613 = #13645 #13645
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13647
[inst-discovered] theory-solving 0x0 basic# ; #13650
[mk-app] #11613 = #13650 #13650
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13653
[mk-app] #11613 = #13653 #13653
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13655
[mk-app] #11613 = #13655 #13655
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13657
[inst-discovered] theory-solving 0x0 basic# ; #13660
[mk-app] #11613 = #13660 #13660
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13663
[mk-app] #11613 = #13663 #13663
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13665
[mk-app] #11613 = #13665 #13665
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13667
[mk-app] #11613 = #13667 #13667
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13669
[mk-app] #11613 = #13669 #13669
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13671
[mk-app] #11613 = #13671 #13671
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13673
[mk-app] #11613 = #13673 #13673
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13675
[mk-app] #11613 = #13675 #13675
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13677
[mk-app] #11613 = #13677 #13677
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9134
[mk-app] #11613 = #9134 #9134
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13679
[mk-app] #11613 = #13679 #13679
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13681
[mk-app] #11613 = #13681 #13681
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13683
[mk-app] #11613 = #13683 #13683
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13685
[mk-app] #11613 = #13685 #13685
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13687
[mk-app] #11613 = #13687 #13687
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13689
[mk-app] #11613 = #13689 #13689
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13691
[mk-app] #11613 = #13691 #13691
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13693
[mk-app] #11613 = #13693 #13693
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13695
[mk-app] #11613 = #13695 #13695
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13697
[mk-app] #11613 = #13697 #13697
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13713
[mk-app] #11613 = #13713 #13713
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13719
[mk-app] #11613 = #13719 #13719
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13723
[mk-app] #11613 = #13723 #13723
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13727
[mk-app] #11613 = #13727 #13727
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13731
[mk-app] #11613 = #13731 #13731
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11868
[mk-app] #11613 = #11868 #11868
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13735
[mk-app] #11613 = #13735 #13735
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13739
[mk-app] #11613 = #13739 #13739
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13772
[mk-app] #11613 = #13772 #13772
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13775
[mk-app] #11613 = #13775 #13775
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13786
[mk-app] #11613 = #13786 #13786
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13788
[mk-app] #11613 = #13788 #13788
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13795
[mk-app] #11613 = #13795 #13795
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13816
[inst-discovered] theory-solving 0x0 basic# ; #13819
[mk-app] #11613 = #13819 #13819
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13824
[mk-app] #11613 = #13824 #13824
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13848
[inst-discovered] theory-solving 0x0 basic# ; #13857
[mk-app] #11613 = #13857 #13857
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13864
[inst-discovered] theory-solving 0x0 basic# ; #13867
[mk-app] #11613 = #13867 #13867
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13870
[inst-discovered] theory-solving 0x0 basic# ; #13873
[mk-app] #11613 = #13873 #13873
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13875
[inst-discovered] theory-solving 0x0 basic# ; #13878
[mk-app] #11613 = #13878 #13878
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13880
[inst-discovered] theory-solving 0x0 basic# ; #13883
[mk-app] #11613 = #13883 #13883
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13887
[inst-discovered] theory-solving 0x0 basic# ; #13890
[mk-app] #11613 = #13890 #13890
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13892
[inst-discovered] theory-solving 0x0 basic# ; #13895
[mk-app] #11613 = #13895 #13895
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #9727
[inst-discovered] theory-solving 0x0 basic# ; #9732
[mk-app] #11613 = #9732 #9732
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9736
[mk-app] #11613 = #9736 #9736
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13898
[mk-app] #11613 = #13898 #13898
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12080
[inst-discovered] theory-solving 0x0 basic# ; #12082
[mk-app] #11613 = #12082 #12082
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12084
[mk-app] #11613 = #12084 #12084
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12090
[mk-app] #11613 = #12090 #12090
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13903
[mk-app] #11613 = #13903 #13903
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13907
[inst-discovered] theory-solving 0x0 basic# ; #13910
[mk-app] #11613 = #13910 #13910
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13912
[inst-discovered] theory-solving 0x0 basic# ; #13915
[mk-app] #11613 = #13915 #13915
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13919
[mk-app] #11613 = #13919 #13919
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13922
[mk-app] #11613 = #13922 #13922
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13928
[mk-app] #11613 = #13928 #13928
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13936
[mk-app] #11613 = #13936 #13936
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13940
[inst-discovered] theory-solving 0x0 basic# ; #13943
[mk-app] #11613 = #13943 #13943
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13948
[mk-app] #11613 = #13948 #13948
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12106
[mk-app] #11613 = #12106 #12106
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13951
[mk-app] #11613 = #13951 #13951
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13964
[mk-app] #11613 = #13964 #13964
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13974
[inst-discovered] theory-solving 0x0 basic# ; #13977
[mk-app] #11613 = #13977 #13977
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13892
[inst-discovered] theory-solving 0x0 basic# ; #13980
[mk-app] #11613 = #13980 #13980
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13982
[mk-app] #11613 = #13982 #13982
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13989
[mk-app] #11613 = #13989 #13989
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13990
[mk-app] #11613 = #13990 #13990
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13993
[mk-app] #11613 = #13993 #13993
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14002
[mk-app] #11613 = #14002 #14002
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14002
[inst-discovered] theory-solving 0x0 basic# ; #14005
[mk-app] #11613 = #14005 #14005
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14015
[mk-app] #11613 = #14015 #14015
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14018
[mk-app] #11613 = #14018 #14018
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14025
[mk-app] #11613 = #14025 #14025
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14025
[inst-discovered] theory-solving 0x0 basic# ; #14028
[mk-app] #11613 = #14028 #14028
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14038
[mk-app] #11613 = #14038 #14038
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14041
[mk-app] #11613 = #14041 #14041
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14046
[inst-discovered] theory-solving 0x0 basic# ; #14049
[mk-app] #11613 = #14049 #14049
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14054
[mk-app] #11613 = #14054 #14054
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14054
[inst-discovered] theory-solving 0x0 basic# ; #14057
[mk-app] #11613 = #14057 #14057
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14061
[inst-discovered] theory-solving 0x0 basic# ; #14064
[mk-app] #11613 = #14064 #14064
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14071
[mk-app] #11613 = #14071 #14071
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14077
[mk-app] #11613 = #14077 #14077
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14074
[mk-app] #11613 = #14074 #14074
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12276
[mk-app] #11613 = #12276 #12276
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14085
[mk-app] #11613 = #14085 #14085
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14096
[mk-app] #11613 = #14096 #14096
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14104
[mk-app] #11613 = #14104 #14104
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14106
[mk-app] #11613 = #14106 #14106
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14109
[mk-app] #11613 = #14109 #14109
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14113
[mk-app] #11613 = #14113 #14113
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14120
[mk-app] #11613 = #14120 #14120
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14121
[mk-app] #11613 = #14121 #14121
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14124
[mk-app] #11613 = #14124 #14124
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14128
[mk-app] #11613 = #14128 #14128
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14135
[mk-app] #11613 = #14135 #14135
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14136
[mk-app] #11613 = #14136 #14136
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14139
[mk-app] #11613 = #14139 #14139
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14143
[mk-app] #11613 = #14143 #14143
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14150
[mk-app] #11613 = #14150 #14150
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14151
[mk-app] #11613 = #14151 #14151
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14154
[mk-app] #11613 = #14154 #14154
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14160
[inst-discovered] theory-solving 0x0 basic# ; #14163
[mk-app] #11613 = #14163 #14163
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14143
[mk-app] #11613 = #14143 #14143
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14171
[mk-app] #11613 = #14171 #14171
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14172
[mk-app] #11613 = #14172 #14172
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14175
[mk-app] #11613 = #14175 #14175
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14183
[inst-discovered] theory-solving 0x0 basic# ; #14186
[mk-app] #11613 = #14186 #14186
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14189
[mk-app] #11613 = #14189 #14189
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14189
[inst-discovered] theory-solving 0x0 basic# ; #14192
[mk-app] #11613 = #14192 #14192
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14194
[mk-app] #11613 = #14194 #14194
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14200
[mk-app] #11613 = #14200 #14200
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14205
[mk-app] #11613 = #14205 #14205
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14210
[mk-app] #11613 = #14210 #14210
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14213
[mk-app] #11613 = #14213 #14213
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14223
[mk-app] #11613 = #14223 #14223
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14223
[inst-discovered] theory-solving 0x0 basic# ; #14226
[mk-app] #11613 = #14226 #14226
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14230
[mk-app] #11613 = #14230 #14230
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14232
[mk-app] #11613 = #14232 #14232
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10675
[mk-app] #11613 = #10675 #10675
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14237
[mk-app] #11613 = #14237 #14237
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14246
[mk-app] #11613 = #14246 #14246
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14249
[mk-app] #11613 = #14249 #14249
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14255
[mk-app] #11613 = #14255 #14255
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14259
[mk-app] #11613 = #14259 #14259
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14259
[inst-discovered] theory-solving 0x0 basic# ; #14262
[mk-app] #11613 = #14262 #14262
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14265
[mk-app] #11613 = #14265 #14265
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14265
[inst-discovered] theory-solving 0x0 basic# ; #14268
[mk-app] #11613 = #14268 #14268
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14271
[mk-app] #11613 = #14271 #14271
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14271
[inst-discovered] theory-solving 0x0 basic# ; #14274
[mk-app] #11613 = #14274 #14274
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14276
[mk-app] #11613 = #14276 #14276
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14276
[inst-discovered] theory-solving 0x0 basic# ; #14279
[mk-app] #11613 = #14279 #14279
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14281
[mk-app] #11613 = #14281 #14281
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14288
[mk-app] #11613 = #14288 #14288
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14289
[mk-app] #11613 = #14289 #14289
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14292
[mk-app] #11613 = #14292 #14292
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14299
[mk-app] #11613 = #14299 #14299
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14304
[mk-app] #11613 = #14304 #14304
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14301
[mk-app] #11613 = #14301 #14301
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14314
[mk-app] #11613 = #14314 #14314
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14317
[mk-app] #11613 = #14317 #14317
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14319
[mk-app] #11613 = #14319 #14319
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14323
[mk-app] #11613 = #14323 #14323
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14324
[mk-app] #11613 = #14324 #14324
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14329
[mk-app] #11613 = #14329 #14329
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14336
[mk-app] #11613 = #14336 #14336
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14332
[mk-app] #11613 = #14332 #14332
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14339
[mk-app] #11613 = #14339 #14339
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14345
[mk-app] #11613 = #14345 #14345
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14345
[inst-discovered] theory-solving 0x0 basic# ; #14348
[mk-app] #11613 = #14348 #14348
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14352
[mk-app] #11613 = #14352 #14352
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14356
[mk-app] #11613 = #14356 #14356
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14367
[inst-discovered] theory-solving 0x0 basic# ; #14370
[mk-app] #11613 = #14370 #14370
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14373
[inst-discovered] theory-solving 0x0 basic# ; #14376
[mk-app] #11613 = #14376 #14376
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14379
[inst-discovered] theory-solving 0x0 basic# ; #14382
[mk-app] #11613 = #14382 #14382
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14386
[mk-app] #11613 = #14386 #14386
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14386
[inst-discovered] theory-solving 0x0 basic# ; #14389
[mk-app] #11613 = #14389 #14389
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14400
[mk-app] #11613 = #14400 #14400
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14400
[inst-discovered] theory-solving 0x0 basic# ; #14403
[mk-app] #11613 = #14403 #14403
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14408
[mk-app] #11613 = #14408 #14408
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14408
[inst-discovered] theory-solving 0x0 basic# ; #14411
[mk-app] #11613 = #14411 #14411
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14414
[inst-discovered] theory-solving 0x0 basic# ; #14417
[mk-app] #11613 = #14417 #14417
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14419
[mk-app] #11613 = #14419 #14419
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14419
[inst-discovered] theory-solving 0x0 basic# ; #14422
[mk-app] #11613 = #14422 #14422
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14427
[mk-app] #11613 = #14427 #14427
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14432
[mk-app] #11613 = #14432 #14432
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14436
[mk-app] #11613 = #14436 #14436
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14447
[mk-app] #11613 = #14447 #14447
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14447
[inst-discovered] theory-solving 0x0 basic# ; #14450
[mk-app] #11613 = #14450 #14450
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14453
[inst-discovered] theory-solving 0x0 basic# ; #14456
[mk-app] #11613 = #14456 #14456
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14459
[inst-discovered] theory-solving 0x0 basic# ; #14462
[mk-app] #11613 = #14462 #14462
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14468
[inst-discovered] theory-solving 0x0 basic# ; #14471
[mk-app] #11613 = #14471 #14471
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14473
[mk-app] #11613 = #14473 #14473
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12702
[mk-app] #11613 = #12702 #12702
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14478
[mk-app] #11613 = #14478 #14478
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14483
[inst-discovered] theory-solving 0x0 basic# ; #14486
[mk-app] #11613 = #14486 #14486
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14489
[inst-discovered] theory-solving 0x0 basic# ; #14492
[mk-app] #11613 = #14492 #14492
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14496
[mk-app] #11613 = #14496 #14496
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14496
[inst-discovered] theory-solving 0x0 basic# ; #14499
[mk-app] #11613 = #14499 #14499
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14503
[inst-discovered] theory-solving 0x0 basic# ; #14506
[mk-app] #11613 = #14506 #14506
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14509
[mk-app] #11613 = #14509 #14509
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14510
[mk-app] #11613 = #14510 #14510
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14510
[inst-discovered] theory-solving 0x0 basic# ; #14513
[mk-app] #11613 = #14513 #14513
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12116
[mk-app] #11613 = #12116 #12116
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11736
[mk-app] #11613 = #11736 #11736
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12427
[mk-app] #11613 = #12427 #12427
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12431
[mk-app] #11613 = #12431 #12431
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12437
[mk-app] #11613 = #12437 #12437
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12236
[mk-app] #11613 = #12236 #12236
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12242
[mk-app] #11613 = #12242 #12242
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12654
[mk-app] #11613 = #12654 #12654
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12658
[mk-app] #11613 = #12658 #12658
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12401
[inst-discovered] theory-solving 0x0 basic# ; #12366
[mk-app] #11613 = #12366 #12366
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12402
[inst-discovered] theory-solving 0x0 basic# ; #12370
[mk-app] #11613 = #12370 #12370
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12654
[mk-app] #11613 = #12654 #12654
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12658
[mk-app] #11613 = #12658 #12658
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #526
[mk-app] #11613 = #526 #526
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9872
[mk-app] #11613 = #9872 #9872
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12136
[mk-app] #11613 = #12136 #12136
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12144
[mk-app] #11613 = #12144 #12144
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12339
[mk-app] #11613 = #12339 #12339
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12345
[mk-app] #11613 = #12345 #12345
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11662
[mk-app] #11613 = #11662 #11662
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11664
[mk-app] #11613 = #11664 #11664
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11666
[mk-app] #11613 = #11666 #11666
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11671
[mk-app] #11613 = #11671 #11671
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12053
[mk-app] #11613 = #12053 #12053
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12057
[mk-app] #11613 = #12057 #12057
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12060
[mk-app] #11613 = #12060 #12060
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12066
[mk-app] #11613 = #12066 #12066
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12072
[inst-discovered] theory-solving 0x0 basic# ; #12494
[mk-app] #11613 = #12494 #12494
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12496
[inst-discovered] theory-solving 0x0 basic# ; #12502
[mk-app] #11613 = #12502 #12502
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1420
[mk-app] #11613 = #1420 #1420
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1453
[mk-app] #11613 = #1453 #1453
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1470
[mk-app] #11613 = #1470 #1470
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1501
[mk-app] #11613 = #1501 #1501
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10681
[mk-app] #11613 = #10681 #10681
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10570
[mk-app] #11613 = #10570 #10570
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11636
[mk-app] #11613 = #11636 #11636
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10328
[mk-app] #11613 = #10328 #10328
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10277
[mk-app] #11613 = #10277 #10277
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10214
[mk-app] #11613 = #10214 #10214
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10081
[mk-app] #11613 = #10081 #10081
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9948
[mk-app] #11613 = #9948 #9948
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6412
[mk-app] #11613 = #6412 #6412
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6414
[mk-app] #11613 = #6414 #6414
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5874
[mk-app] #11613 = #5874 #5874
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5883
[mk-app] #11613 = #5883 #5883
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5536
[mk-app] #11613 = #5536 #5536
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1639
[mk-app] #11613 = #1639 #1639
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1590
[mk-app] #11613 = #1590 #1590
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1639
[mk-app] #11613 = #1639 #1639
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2828
[mk-app] #11613 = #2828 #2828
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12717
[mk-app] #11613 = #12717 #12717
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12721
[mk-app] #11613 = #12721 #12721
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12730
[mk-app] #11613 = #12730 #12730
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12739
[mk-app] #11613 = #12739 #12739
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12743
[mk-app] #11613 = #12743 #12743
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12752
[mk-app] #11613 = #12752 #12752
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3002
[mk-app] #11613 = #3002 #3002
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12756
[mk-app] #11613 = #12756 #12756
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12765
[mk-app] #11613 = #12765 #12765
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3035
[mk-app] #11613 = #3035 #3035
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12769
[mk-app] #11613 = #12769 #12769
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12778
[mk-app] #11613 = #12778 #12778
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12787
[mk-app] #11613 = #12787 #12787
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12791
[mk-app] #11613 = #12791 #12791
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1639
[mk-app] #11613 = #1639 #1639
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3117
[mk-app] #11613 = #3117 #3117
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #3124
[mk-app] #11613 = #3124 #3124
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12810
[mk-app] #11613 = #12810 #12810
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12839
[mk-app] #11613 = #12839 #12839
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12851
[mk-app] #11613 = #12851 #12851
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12864
[mk-app] #11613 = #12864 #12864
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12871
[mk-app] #11613 = #12871 #12871
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12875
[mk-app] #11613 = #12875 #12875
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12875
[mk-app] #11613 = #12875 #12875
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12882
[mk-app] #11613 = #12882 #12882
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12886
[mk-app] #11613 = #12886 #12886
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12891
[mk-app] #11613 = #12891 #12891
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12896
[mk-app] #11613 = #12896 #12896
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12901
[mk-app] #11613 = #12901 #12901
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12906
[mk-app] #11613 = #12906 #12906
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12911
[mk-app] #11613 = #12911 #12911
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12916
[mk-app] #11613 = #12916 #12916
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12921
[mk-app] #11613 = #12921 #12921
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12926
[mk-app] #11613 = #12926 #12926
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12930
[mk-app] #11613 = #12930 #12930
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12934
[mk-app] #11613 = #12934 #12934
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12954
[mk-app] #11613 = #12954 #12954
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12956
[mk-app] #11613 = #12956 #12956
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12962
[mk-app] #11613 = #12962 #12962
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12964
[mk-app] #11613 = #12964 #12964
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12983
[mk-app] #11613 = #12983 #12983
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12985
[mk-app] #11613 = #12985 #12985
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13003
[mk-app] #11613 = #13003 #13003
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13005
[mk-app] #11613 = #13005 #13005
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13007
[mk-app] #11613 = #13007 #13007
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13009
[mk-app] #11613 = #13009 #13009
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13011
[mk-app] #11613 = #13011 #13011
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13013
[mk-app] #11613 = #13013 #13013
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13015
[mk-app] #11613 = #13015 #13015
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13017
[mk-app] #11613 = #13017 #13017
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13027
[mk-app] #11613 = #13027 #13027
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13029
[mk-app] #11613 = #13029 #13029
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13031
[mk-app] #11613 = #13031 #13031
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13033
[mk-app] #11613 = #13033 #13033
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13035
[mk-app] #11613 = #13035 #13035
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13037
[mk-app] #11613 = #13037 #13037
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13039
[mk-app] #11613 = #13039 #13039
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13041
[mk-app] #11613 = #13041 #13041
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13043
[mk-app] #11613 = #13043 #13043
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13045
[mk-app] #11613 = #13045 #13045
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13047
[mk-app] #11613 = #13047 #13047
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13049
[mk-app] #11613 = #13049 #13049
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13051
[mk-app] #11613 = #13051 #13051
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13053
[mk-app] #11613 = #13053 #13053
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13055
[mk-app] #11613 = #13055 #13055
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13057
[mk-app] #11613 = #13057 #13057
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13072
[mk-app] #11613 = #13072 #13072
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13074
[mk-app] #11613 = #13074 #13074
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13076
[mk-app] #11613 = #13076 #13076
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13078
[mk-app] #11613 = #13078 #13078
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13095
[mk-app] #11613 = #13095 #13095
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13100
[mk-app] #11613 = #13100 #13100
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13103
[mk-app] #11613 = #13103 #13103
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13104
[mk-app] #11613 = #13104 #13104
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13113
[mk-app] #11613 = #13113 #13113
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13116
[mk-app] #11613 = #13116 #13116
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13122
[mk-app] #11613 = #13122 #13122
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13128
[mk-app] #11613 = #13128 #13128
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13130
[mk-app] #11613 = #13130 #13130
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13132
[mk-app] #11613 = #13132 #13132
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13138
[mk-app] #11613 = #13138 #13138
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13140
[mk-app] #11613 = #13140 #13140
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13147
[mk-app] #11613 = #13147 #13147
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13149
[mk-app] #11613 = #13149 #13149
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13153
[mk-app] #11613 = #13153 #13153
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13160
[mk-app] #11613 = #13160 #13160
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13163
[mk-app] #11613 = #13163 #13163
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13170
[mk-app] #11613 = #13170 #13170
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13171
[mk-app] #11613 = #13171 #13171
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13174
[mk-app] #11613 = #13174 #13174
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13176
[mk-app] #11613 = #13176 #13176
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #11613 = #13188 #13188
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13191
[mk-app] #11613 = #13191 #13191
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13193
[mk-app] #11613 = #13193 #13193
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13197
[mk-app] #11613 = #13197 #13197
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13202
[mk-app] #11613 = #13202 #13202
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13213
[mk-app] #11613 = #13213 #13213
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13221
[mk-app] #11613 = #13221 #13221
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13232
[mk-app] #11613 = #13232 #13232
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13234
[mk-app] #11613 = #13234 #13234
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5779
[mk-app] #11613 = #5779 #5779
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13241
[mk-app] #11613 = #13241 #13241
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13246
[mk-app] #11613 = #13246 #13246
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13253
[mk-app] #11613 = #13253 #13253
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13254
[mk-app] #11613 = #13254 #13254
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13257
[mk-app] #11613 = #13257 #13257
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13259
[mk-app] #11613 = #13259 #13259
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13263
[mk-app] #11613 = #13263 #13263
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13266
[mk-app] #11613 = #13266 #13266
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13268
[mk-app] #11613 = #13268 #13268
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13271
[mk-app] #11613 = #13271 #13271
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13274
[mk-app] #11613 = #13274 #13274
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5975
[mk-app] #11613 = #5975 #5975
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13277
[mk-app] #11613 = #13277 #13277
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13285
[mk-app] #11613 = #13285 #13285
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13291
[mk-app] #11613 = #13291 #13291
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13300
[mk-app] #11613 = #13300 #13300
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13306
[mk-app] #11613 = #13306 #13306
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13310
[mk-app] #11613 = #13310 #13310
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13311
[mk-app] #11613 = #13311 #13311
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13316
[mk-app] #11613 = #13316 #13316
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13320
[mk-app] #11613 = #13320 #13320
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13318
[mk-app] #11613 = #13318 #13318
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13324
[mk-app] #11613 = #13324 #13324
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13327
[mk-app] #11613 = #13327 #13327
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6264
[mk-app] #11613 = #6264 #6264
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13329
[mk-app] #11613 = #13329 #13329
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13331
[mk-app] #11613 = #13331 #13331
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13333
[inst-discovered] theory-solving 0x0 basic# ; #13336
[mk-app] #11613 = #13336 #13336
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13341
[mk-app] #11613 = #13341 #13341
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6400
[mk-app] #11613 = #6400 #6400
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13343
[inst-discovered] theory-solving 0x0 basic# ; #13346
[mk-app] #11613 = #13346 #13346
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11799
[mk-app] #11613 = #11799 #11799
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13359
[mk-app] #11613 = #13359 #13359
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6406
[mk-app] #11613 = #6406 #6406
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13371
[mk-app] #11613 = #13371 #13371
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13374
[mk-app] #11613 = #13374 #13374
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13378
[mk-app] #11613 = #13378 #13378
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13380
[mk-app] #11613 = #13380 #13380
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13382
[mk-app] #11613 = #13382 #13382
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13384
[mk-app] #11613 = #13384 #13384
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13388
[mk-app] #11613 = #13388 #13388
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13395
[mk-app] #11613 = #13395 #13395
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13402
[mk-app] #11613 = #13402 #13402
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13409
[mk-app] #11613 = #13409 #13409
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13416
[mk-app] #11613 = #13416 #13416
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13423
[mk-app] #11613 = #13423 #13423
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13430
[mk-app] #11613 = #13430 #13430
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13437
[mk-app] #11613 = #13437 #13437
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13444
[mk-app] #11613 = #13444 #13444
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13451
[mk-app] #11613 = #13451 #13451
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13458
[mk-app] #11613 = #13458 #13458
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13465
[mk-app] #11613 = #13465 #13465
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13473
[mk-app] #11613 = #13473 #13473
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13486
[mk-app] #11613 = #13486 #13486
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13492
[mk-app] #11613 = #13492 #13492
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13492
[inst-discovered] theory-solving 0x0 basic# ; #13495
[mk-app] #11613 = #13495 #13495
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13503
[mk-app] #11613 = #13503 #13503
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13516
[mk-app] #11613 = #13516 #13516
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13523
[mk-app] #11613 = #13523 #13523
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13525
[mk-app] #11613 = #13525 #13525
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13530
[inst-discovered] theory-solving 0x0 basic# ; #13533
[mk-app] #11613 = #13533 #13533
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13536
[mk-app] #11613 = #13536 #13536
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13538
[mk-app] #11613 = #13538 #13538
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #8385
[inst-discovered] theory-solving 0x0 basic# ; #13561
[mk-app] #11613 = #13561 #13561
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13563
[mk-app] #11613 = #13563 #13563
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13567
[mk-app] #11613 = #13567 #13567
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13569
[mk-app] #11613 = #13569 #13569
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13576
[mk-app] #11613 = #13576 #13576
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13579
[mk-app] #11613 = #13579 #13579
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13582
[mk-app] #11613 = #13582 #13582
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13586
[mk-app] #11613 = #13586 #13586
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13589
[mk-app] #11613 = #13589 #13589
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8527
[mk-app] #11613 = #8527 #8527
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13596
[mk-app] #11613 = #13596 #13596
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13600
[mk-app] #11613 = #13600 #13600
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13603
[mk-app] #11613 = #13603 #13603
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13605
[mk-app] #11613 = #13605 #13605
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13607
[mk-app] #11613 = #13607 #13607
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13611
[mk-app] #11613 = #13611 #13611
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13610
[inst-discovered] theory-solving 0x0 basic# ; #13615
[mk-app] #11613 = #13615 #13615
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13617
[inst-discovered] theory-solving 0x0 basic# ; #13620
[mk-app] #11613 = #13620 #13620
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13623
[mk-app] #11613 = #13623 #13623
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13625
[mk-app] #11613 = #13625 #13625
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13627
[inst-discovered] theory-solving 0x0 basic# ; #13630
[mk-app] #11613 = #13630 #13630
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13633
[mk-app] #11613 = #13633 #13633
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13635
[mk-app] #11613 = #13635 #13635
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13637
[inst-discovered] theory-solving 0x0 basic# ; #13640
[mk-app] #11613 = #13640 #13640
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13643
[mk-app] #11613 = #13643 #13643
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13645
[mk-app] #11613 = #13645 #13645
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13647
[inst-discovered] theory-solving 0x0 basic# ; #13650
[mk-app] #11613 = #13650 #13650
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13653
[mk-app] #11613 = #13653 #13653
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13655
[mk-app] #11613 = #13655 #13655
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13657
[inst-discovered] theory-solving 0x0 basic# ; #13660
[mk-app] #11613 = #13660 #13660
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13663
[mk-app] #11613 = #13663 #13663
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13665
[mk-app] #11613 = #13665 #13665
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13667
[mk-app] #11613 = #13667 #13667
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13669
[mk-app] #11613 = #13669 #13669
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13671
[mk-app] #11613 = #13671 #13671
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13673
[mk-app] #11613 = #13673 #13673
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13675
[mk-app] #11613 = #13675 #13675
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13677
[mk-app] #11613 = #13677 #13677
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9134
[mk-app] #11613 = #9134 #9134
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13679
[mk-app] #11613 = #13679 #13679
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13681
[mk-app] #11613 = #13681 #13681
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13683
[mk-app] #11613 = #13683 #13683
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13685
[mk-app] #11613 = #13685 #13685
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13687
[mk-app] #11613 = #13687 #13687
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13689
[mk-app] #11613 = #13689 #13689
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13691
[mk-app] #11613 = #13691 #13691
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13693
[mk-app] #11613 = #13693 #13693
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13695
[mk-app] #11613 = #13695 #13695
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13697
[mk-app] #11613 = #13697 #13697
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13713
[mk-app] #11613 = #13713 #13713
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13719
[mk-app] #11613 = #13719 #13719
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13723
[mk-app] #11613 = #13723 #13723
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13727
[mk-app] #11613 = #13727 #13727
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13731
[mk-app] #11613 = #13731 #13731
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11868
[mk-app] #11613 = #11868 #11868
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13735
[mk-app] #11613 = #13735 #13735
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13739
[mk-app] #11613 = #13739 #13739
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13772
[mk-app] #11613 = #13772 #13772
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13775
[mk-app] #11613 = #13775 #13775
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13786
[mk-app] #11613 = #13786 #13786
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13788
[mk-app] #11613 = #13788 #13788
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13795
[mk-app] #11613 = #13795 #13795
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13816
[inst-discovered] theory-solving 0x0 basic# ; #13819
[mk-app] #11613 = #13819 #13819
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13824
[mk-app] #11613 = #13824 #13824
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13848
[inst-discovered] theory-solving 0x0 basic# ; #13857
[mk-app] #11613 = #13857 #13857
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13864
[inst-discovered] theory-solving 0x0 basic# ; #13867
[mk-app] #11613 = #13867 #13867
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13870
[inst-discovered] theory-solving 0x0 basic# ; #13873
[mk-app] #11613 = #13873 #13873
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13875
[inst-discovered] theory-solving 0x0 basic# ; #13878
[mk-app] #11613 = #13878 #13878
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13880
[inst-discovered] theory-solving 0x0 basic# ; #13883
[mk-app] #11613 = #13883 #13883
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13887
[inst-discovered] theory-solving 0x0 basic# ; #13890
[mk-app] #11613 = #13890 #13890
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13892
[inst-discovered] theory-solving 0x0 basic# ; #13895
[mk-app] #11613 = #13895 #13895
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #9727
[inst-discovered] theory-solving 0x0 basic# ; #9732
[mk-app] #11613 = #9732 #9732
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9736
[mk-app] #11613 = #9736 #9736
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13898
[mk-app] #11613 = #13898 #13898
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #12080
[inst-discovered] theory-solving 0x0 basic# ; #12082
[mk-app] #11613 = #12082 #12082
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12084
[mk-app] #11613 = #12084 #12084
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12090
[mk-app] #11613 = #12090 #12090
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13903
[mk-app] #11613 = #13903 #13903
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13907
[inst-discovered] theory-solving 0x0 basic# ; #13910
[mk-app] #11613 = #13910 #13910
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13912
[inst-discovered] theory-solving 0x0 basic# ; #13915
[mk-app] #11613 = #13915 #13915
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13919
[mk-app] #11613 = #13919 #13919
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13922
[mk-app] #11613 = #13922 #13922
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13928
[mk-app] #11613 = #13928 #13928
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13936
[mk-app] #11613 = #13936 #13936
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13940
[inst-discovered] theory-solving 0x0 basic# ; #13943
[mk-app] #11613 = #13943 #13943
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13948
[mk-app] #11613 = #13948 #13948
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12106
[mk-app] #11613 = #12106 #12106
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13951
[mk-app] #11613 = #13951 #13951
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13964
[mk-app] #11613 = #13964 #13964
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13974
[inst-discovered] theory-solving 0x0 basic# ; #13977
[mk-app] #11613 = #13977 #13977
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #13892
[inst-discovered] theory-solving 0x0 basic# ; #13980
[mk-app] #11613 = #13980 #13980
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13982
[mk-app] #11613 = #13982 #13982
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13989
[mk-app] #11613 = #13989 #13989
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13990
[mk-app] #11613 = #13990 #13990
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13993
[mk-app] #11613 = #13993 #13993
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14002
[mk-app] #11613 = #14002 #14002
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14002
[inst-discovered] theory-solving 0x0 basic# ; #14005
[mk-app] #11613 = #14005 #14005
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14015
[mk-app] #11613 = #14015 #14015
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14018
[mk-app] #11613 = #14018 #14018
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14025
[mk-app] #11613 = #14025 #14025
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14025
[inst-discovered] theory-solving 0x0 basic# ; #14028
[mk-app] #11613 = #14028 #14028
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14038
[mk-app] #11613 = #14038 #14038
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14041
[mk-app] #11613 = #14041 #14041
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14046
[inst-discovered] theory-solving 0x0 basic# ; #14049
[mk-app] #11613 = #14049 #14049
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14054
[mk-app] #11613 = #14054 #14054
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14054
[inst-discovered] theory-solving 0x0 basic# ; #14057
[mk-app] #11613 = #14057 #14057
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14061
[inst-discovered] theory-solving 0x0 basic# ; #14064
[mk-app] #11613 = #14064 #14064
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14071
[mk-app] #11613 = #14071 #14071
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14077
[mk-app] #11613 = #14077 #14077
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14074
[mk-app] #11613 = #14074 #14074
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12276
[mk-app] #11613 = #12276 #12276
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14085
[mk-app] #11613 = #14085 #14085
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14096
[mk-app] #11613 = #14096 #14096
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14104
[mk-app] #11613 = #14104 #14104
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14106
[mk-app] #11613 = #14106 #14106
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14109
[mk-app] #11613 = #14109 #14109
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14113
[mk-app] #11613 = #14113 #14113
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14120
[mk-app] #11613 = #14120 #14120
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14121
[mk-app] #11613 = #14121 #14121
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14124
[mk-app] #11613 = #14124 #14124
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14128
[mk-app] #11613 = #14128 #14128
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14135
[mk-app] #11613 = #14135 #14135
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14136
[mk-app] #11613 = #14136 #14136
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14139
[mk-app] #11613 = #14139 #14139
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14143
[mk-app] #11613 = #14143 #14143
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14150
[mk-app] #11613 = #14150 #14150
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14151
[mk-app] #11613 = #14151 #14151
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14154
[mk-app] #11613 = #14154 #14154
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14160
[inst-discovered] theory-solving 0x0 basic# ; #14163
[mk-app] #11613 = #14163 #14163
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14143
[mk-app] #11613 = #14143 #14143
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14171
[mk-app] #11613 = #14171 #14171
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14172
[mk-app] #11613 = #14172 #14172
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14175
[mk-app] #11613 = #14175 #14175
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14183
[inst-discovered] theory-solving 0x0 basic# ; #14186
[mk-app] #11613 = #14186 #14186
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14189
[mk-app] #11613 = #14189 #14189
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14189
[inst-discovered] theory-solving 0x0 basic# ; #14192
[mk-app] #11613 = #14192 #14192
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14194
[mk-app] #11613 = #14194 #14194
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14200
[mk-app] #11613 = #14200 #14200
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14205
[mk-app] #11613 = #14205 #14205
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14210
[mk-app] #11613 = #14210 #14210
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14213
[mk-app] #11613 = #14213 #14213
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14223
[mk-app] #11613 = #14223 #14223
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14223
[inst-discovered] theory-solving 0x0 basic# ; #14226
[mk-app] #11613 = #14226 #14226
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14230
[mk-app] #11613 = #14230 #14230
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14232
[mk-app] #11613 = #14232 #14232
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10675
[mk-app] #11613 = #10675 #10675
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14237
[mk-app] #11613 = #14237 #14237
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14246
[mk-app] #11613 = #14246 #14246
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14249
[mk-app] #11613 = #14249 #14249
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14255
[mk-app] #11613 = #14255 #14255
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14259
[mk-app] #11613 = #14259 #14259
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14259
[inst-discovered] theory-solving 0x0 basic# ; #14262
[mk-app] #11613 = #14262 #14262
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14265
[mk-app] #11613 = #14265 #14265
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14265
[inst-discovered] theory-solving 0x0 basic# ; #14268
[mk-app] #11613 = #14268 #14268
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14271
[mk-app] #11613 = #14271 #14271
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14271
[inst-discovered] theory-solving 0x0 basic# ; #14274
[mk-app] #11613 = #14274 #14274
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14276
[mk-app] #11613 = #14276 #14276
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14276
[inst-discovered] theory-solving 0x0 basic# ; #14279
[mk-app] #11613 = #14279 #14279
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14281
[mk-app] #11613 = #14281 #14281
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14288
[mk-app] #11613 = #14288 #14288
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14289
[mk-app] #11613 = #14289 #14289
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14292
[mk-app] #11613 = #14292 #14292
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14299
[mk-app] #11613 = #14299 #14299
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14304
[mk-app] #11613 = #14304 #14304
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14301
[mk-app] #11613 = #14301 #14301
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14314
[mk-app] #11613 = #14314 #14314
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14317
[mk-app] #11613 = #14317 #14317
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14319
[mk-app] #11613 = #14319 #14319
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14323
[mk-app] #11613 = #14323 #14323
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14324
[mk-app] #11613 = #14324 #14324
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14329
[mk-app] #11613 = #14329 #14329
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14336
[mk-app] #11613 = #14336 #14336
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14332
[mk-app] #11613 = #14332 #14332
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14339
[mk-app] #11613 = #14339 #14339
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14345
[mk-app] #11613 = #14345 #14345
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14345
[inst-discovered] theory-solving 0x0 basic# ; #14348
[mk-app] #11613 = #14348 #14348
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14352
[mk-app] #11613 = #14352 #14352
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14356
[mk-app] #11613 = #14356 #14356
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14367
[inst-discovered] theory-solving 0x0 basic# ; #14370
[mk-app] #11613 = #14370 #14370
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14373
[inst-discovered] theory-solving 0x0 basic# ; #14376
[mk-app] #11613 = #14376 #14376
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14379
[inst-discovered] theory-solving 0x0 basic# ; #14382
[mk-app] #11613 = #14382 #14382
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14386
[mk-app] #11613 = #14386 #14386
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14386
[inst-discovered] theory-solving 0x0 basic# ; #14389
[mk-app] #11613 = #14389 #14389
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14400
[mk-app] #11613 = #14400 #14400
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14400
[inst-discovered] theory-solving 0x0 basic# ; #14403
[mk-app] #11613 = #14403 #14403
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14408
[mk-app] #11613 = #14408 #14408
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14408
[inst-discovered] theory-solving 0x0 basic# ; #14411
[mk-app] #11613 = #14411 #14411
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14414
[inst-discovered] theory-solving 0x0 basic# ; #14417
[mk-app] #11613 = #14417 #14417
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14419
[mk-app] #11613 = #14419 #14419
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14419
[inst-discovered] theory-solving 0x0 basic# ; #14422
[mk-app] #11613 = #14422 #14422
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14427
[mk-app] #11613 = #14427 #14427
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14432
[mk-app] #11613 = #14432 #14432
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14436
[mk-app] #11613 = #14436 #14436
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14447
[mk-app] #11613 = #14447 #14447
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14447
[inst-discovered] theory-solving 0x0 basic# ; #14450
[mk-app] #11613 = #14450 #14450
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14453
[inst-discovered] theory-solving 0x0 basic# ; #14456
[mk-app] #11613 = #14456 #14456
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14459
[inst-discovered] theory-solving 0x0 basic# ; #14462
[mk-app] #11613 = #14462 #14462
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14468
[inst-discovered] theory-solving 0x0 basic# ; #14471
[mk-app] #11613 = #14471 #14471
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14473
[mk-app] #11613 = #14473 #14473
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12702
[mk-app] #11613 = #12702 #12702
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14478
[mk-app] #11613 = #14478 #14478
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14483
[inst-discovered] theory-solving 0x0 basic# ; #14486
[mk-app] #11613 = #14486 #14486
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14489
[inst-discovered] theory-solving 0x0 basic# ; #14492
[mk-app] #11613 = #14492 #14492
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14496
[mk-app] #11613 = #14496 #14496
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14496
[inst-discovered] theory-solving 0x0 basic# ; #14499
[mk-app] #11613 = #14499 #14499
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14503
[inst-discovered] theory-solving 0x0 basic# ; #14506
[mk-app] #11613 = #14506 #14506
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14509
[mk-app] #11613 = #14509 #14509
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14510
[mk-app] #11613 = #14510 #14510
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 not #14510
[inst-discovered] theory-solving 0x0 basic# ; #14513
[mk-app] #11613 = #14513 #14513
[instance] 0x0 #11613
[attach-enode] #11613 0
[end-of-instance]
[mk-app] #11613 or #1377 #1369
[mk-app] #11614 or #1377 #1370
[mk-app] #11615 or #1377 #1371
[mk-app] #11593 or #1377 #1372
[mk-app] #11594 or #1377 #1373
[mk-app] #11595 or #1377 #1374
[mk-app] #11552 or #1384 #1380
[mk-app] #11553 or #1384 #1381
[mk-app] #11554 or #1414 #1387
[mk-app] #11531 or #1414 #1388
[mk-app] #11532 or #1414 #1389
[mk-app] #11533 or #1414 #1390
[mk-app] #11508 or #1414 #1391
[mk-app] #11514 or #1414 #1392
[mk-app] #12698 or #1414 #1393
[mk-app] #12703 or #1414 #1394
[mk-app] #12704 or #1414 #1395
[mk-app] #784 or #1414 #1396
[mk-app] #2680 or #1414 #1397
[mk-app] #11482 or #1414 #1398
[mk-app] #11484 or #1414 #1399
[mk-app] #11485 or #1414 #1400
[mk-app] #11486 or #1414 #1401
[mk-app] #11487 or #1414 #1402
[mk-app] #11459 or #1414 #1403
[mk-app] #11460 or #1414 #1404
[mk-app] #11461 or #1414 #1405
[mk-app] #11432 or #1414 #1406
[mk-app] #11433 or #1414 #1407
[mk-app] #11434 or #1414 #1408
[mk-app] #11380 or #1414 #1409
[mk-app] #11386 or #1414 #1410
[mk-app] #11387 or #1414 #1411
[mk-app] #11389 or #1426 #1422
[mk-app] #11396 or #1426 #1423
[mk-app] #11397 or #1447 #1429
[mk-app] #11398 or #1447 #1430
[mk-app] #11328 or #1447 #1431
[mk-app] #11331 or #1447 #1432
[mk-app] #11332 or #1447 #1433
[mk-app] #11334 or #1447 #1434
[mk-app] #11333 or #1447 #1435
[mk-app] #11326 or #1447 #1436
[mk-app] #11335 or #1447 #1437
[mk-app] #12669 or #1447 #1438
[mk-app] #12673 or #1447 #1439
[mk-app] #12677 or #1447 #1440
[mk-app] #12678 or #1447 #1441
[mk-app] #12679 or #1447 #1442
[mk-app] #12680 or #1447 #1443
[mk-app] #12681 or #1447 #1444
[mk-app] #12683 or #1464 #1455
[mk-app] #12684 or #1464 #1456
[mk-app] #12685 or #1464 #1457
[mk-app] #11237 or #1464 #1458
[mk-app] #11238 or #1464 #1459
[mk-app] #11239 or #1464 #1460
[mk-app] #11200 or #1464 #1461
[mk-app] #11210 or #1486 #1472
[mk-app] #11217 or #1486 #1473
[mk-app] #11222 or #1486 #1474
[mk-app] #11228 or #1486 #1475
[mk-app] #11229 or #1486 #1476
[mk-app] #11230 or #1486 #1477
[mk-app] #11231 or #1486 #1478
[mk-app] #2683 or #1486 #1479
[mk-app] #11144 or #1486 #1480
[mk-app] #11154 or #1486 #1481
[mk-app] #11156 or #1486 #1482
[mk-app] #11162 or #1486 #1483
[mk-app] #11163 or #1495 #1489
[mk-app] #11164 or #1495 #1490
[mk-app] #11121 or #1495 #1491
[mk-app] #11122 or #1495 #1492
[assign] #38 justification -1: 
[assign] #42 justification -1: 
[assign] #55 justification -1: 
[assign] #62 justification -1: 
[assign] #12118 justification -1: 
[assign] #87 justification -1: 
[assign] #91 justification -1: 
[assign] #95 justification -1: 
[assign] #99 justification -1: 
[assign] #103 justification -1: 
[assign] #107 justification -1: 
[assign] #111 justification -1: 
[assign] #115 justification -1: 
[assign] #119 justification -1: 
[attach-enode] #120 0
[attach-enode] #121 0
[assign] #121 justification -1: 
[assign] #127 justification -1: 
[assign] #133 justification -1: 
[assign] #138 justification -1: 
[assign] #143 justification -1: 
[assign] #11725 justification -1: 
[assign] #160 justification -1: 
[assign] #164 justification -1: 
[assign] #169 justification -1: 
[assign] #173 justification -1: 
[assign] #183 justification -1: 
[assign] #194 justification -1: 
[assign] #202 justification -1: 
[assign] #210 justification -1: 
[assign] #218 justification -1: 
[assign] #227 justification -1: 
[assign] #235 justification -1: 
[assign] #243 justification -1: 
[assign] #251 justification -1: 
[assign] #261 justification -1: 
[assign] #268 justification -1: 
[attach-enode] #269 0
[attach-enode] #270 0
[attach-enode] #271 0
[attach-enode] #272 0
[attach-enode] #273 0
[attach-enode] #275 0
[attach-enode] #276 0
[attach-enode] #277 0
[attach-enode] #278 0
[assign] #278 justification -1: 
[attach-enode] #279 0
[attach-enode] #280 0
[attach-enode] #281 0
[attach-enode] #282 0
[assign] #282 justification -1: 
[attach-enode] #283 0
[attach-enode] #284 0
[attach-enode] #285 0
[assign] #285 justification -1: 
[attach-enode] #286 0
[attach-enode] #287 0
[attach-enode] #288 0
[assign] #288 justification -1: 
[attach-enode] #289 0
[attach-enode] #290 0
[attach-enode] #295 0
[attach-enode] #296 0
[assign] #296 justification -1: 
[attach-enode] #297 0
[attach-enode] #300 0
[attach-enode] #301 0
[assign] #301 justification -1: 
[attach-enode] #302 0
[attach-enode] #306 0
[attach-enode] #307 0
[assign] #307 justification -1: 
[attach-enode] #308 0
[attach-enode] #312 0
[attach-enode] #313 0
[assign] #313 justification -1: 
[attach-enode] #314 0
[attach-enode] #318 0
[attach-enode] #319 0
[assign] #319 justification -1: 
[attach-enode] #320 0
[attach-enode] #324 0
[attach-enode] #325 0
[assign] #325 justification -1: 
[attach-enode] #326 0
[attach-enode] #327 0
[assign] #327 justification -1: 
[attach-enode] #328 0
[attach-enode] #303 0
[attach-enode] #329 0
[assign] #329 justification -1: 
[attach-enode] #330 0
[attach-enode] #309 0
[attach-enode] #331 0
[assign] #331 justification -1: 
[attach-enode] #332 0
[attach-enode] #315 0
[attach-enode] #333 0
[assign] #333 justification -1: 
[attach-enode] #334 0
[attach-enode] #321 0
[attach-enode] #335 0
[assign] #335 justification -1: 
[assign] #11730 justification -1: 
[assign] #12429 justification -1: 
[assign] #12439 justification -1: 
[assign] #12398 justification -1: 
[assign] #12367 justification -1: 
[assign] #12373 justification -1: 
[assign] #12374 justification -1: 
[assign] #462 justification -1: 
[assign] #468 justification -1: 
[assign] #476 justification -1: 
[assign] #484 justification -1: 
[assign] #491 justification -1: 
[assign] #498 justification -1: 
[assign] #504 justification -1: 
[assign] #511 justification -1: 
[assign] #517 justification -1: 
[assign] #522 justification -1: 
[assign] #527 justification -1: 
[assign] #532 justification -1: 
[assign] #537 justification -1: 
[assign] #542 justification -1: 
[assign] #546 justification -1: 
[assign] #552 justification -1: 
[assign] #567 justification -1: 
[assign] #574 justification -1: 
[assign] #583 justification -1: 
[assign] #592 justification -1: 
[assign] #598 justification -1: 
[assign] #615 justification -1: 
[assign] #622 justification -1: 
[assign] #631 justification -1: 
[assign] #10679 justification -1: 
[assign] #12137 justification -1: 
[assign] #12145 justification -1: 
[assign] #12340 justification -1: 
[assign] #12346 justification -1: 
[assign] #11663 justification -1: 
[assign] #11665 justification -1: 
[assign] #11670 justification -1: 
[assign] #11672 justification -1: 
[assign] #12344 justification -1: 
[assign] #12054 justification -1: 
[assign] #760 justification -1: 
[assign] #12071 justification -1: 
[assign] #12492 justification -1: 
[assign] #12500 justification -1: 
[mk-app] #10867 distinct-aux-f!!67 #796
[mk-app] #11337 unique-value!68
[attach-enode] #11337 0
[mk-app] #1637 = #10867 #11337
[attach-enode] #796 0
[attach-enode] #10867 0
[attach-enode] #1637 0
[assign] #1637 justification -1: 
[mk-app] #12311 distinct-aux-f!!67 #797
[mk-app] #12530 unique-value!69
[attach-enode] #12530 0
[mk-app] #10242 = #12311 #12530
[attach-enode] #797 0
[attach-enode] #12311 0
[attach-enode] #10242 0
[assign] #10242 justification -1: 
[mk-app] #12573 distinct-aux-f!!67 #798
[mk-app] #12563 unique-value!70
[attach-enode] #12563 0
[mk-app] #11123 = #12573 #12563
[attach-enode] #798 0
[attach-enode] #12573 0
[attach-enode] #11123 0
[assign] #11123 justification -1: 
[mk-app] #11124 distinct-aux-f!!67 #799
[mk-app] #11096 unique-value!71
[attach-enode] #11096 0
[mk-app] #11097 = #11124 #11096
[attach-enode] #799 0
[attach-enode] #11124 0
[attach-enode] #11097 0
[assign] #11097 justification -1: 
[mk-app] #11098 distinct-aux-f!!67 #800
[mk-app] #11050 unique-value!72
[attach-enode] #11050 0
[mk-app] #11051 = #11098 #11050
[attach-enode] #800 0
[attach-enode] #11098 0
[attach-enode] #11051 0
[assign] #11051 justification -1: 
[mk-app] #11052 distinct-aux-f!!67 #801
[mk-app] #11021 unique-value!73
[attach-enode] #11021 0
[mk-app] #11022 = #11052 #11021
[attach-enode] #801 0
[attach-enode] #11052 0
[attach-enode] #11022 0
[assign] #11022 justification -1: 
[mk-app] #11023 distinct-aux-f!!67 #802
[mk-app] #12630 unique-value!74
[attach-enode] #12630 0
[mk-app] #12635 = #11023 #12630
[attach-enode] #802 0
[attach-enode] #11023 0
[attach-enode] #12635 0
[assign] #12635 justification -1: 
[mk-app] #12622 distinct-aux-f!!67 #803
[mk-app] #12634 unique-value!75
[attach-enode] #12634 0
[mk-app] #12636 = #12622 #12634
[attach-enode] #803 0
[attach-enode] #12622 0
[attach-enode] #12636 0
[assign] #12636 justification -1: 
[mk-app] #12637 distinct-aux-f!!67 #804
[mk-app] #12638 unique-value!76
[attach-enode] #12638 0
[mk-app] #12639 = #12637 #12638
[attach-enode] #804 0
[attach-enode] #12637 0
[attach-enode] #12639 0
[assign] #12639 justification -1: 
[mk-app] #10984 distinct-aux-f!!67 #805
[mk-app] #10985 unique-value!77
[attach-enode] #10985 0
[mk-app] #10986 = #10984 #10985
[attach-enode] #805 0
[attach-enode] #10984 0
[attach-enode] #10986 0
[assign] #10986 justification -1: 
[mk-app] #10988 distinct-aux-f!!67 #806
[mk-app] #10956 unique-value!78
[attach-enode] #10956 0
[mk-app] #10959 = #10988 #10956
[attach-enode] #806 0
[attach-enode] #10988 0
[attach-enode] #10959 0
[assign] #10959 justification -1: 
[mk-app] #10961 distinct-aux-f!!67 #807
[mk-app] #10960 unique-value!79
[attach-enode] #10960 0
[mk-app] #10871 = #10961 #10960
[attach-enode] #807 0
[attach-enode] #10961 0
[attach-enode] #10871 0
[assign] #10871 justification -1: 
[mk-app] #10966 distinct-aux-f!!67 #808
[mk-app] #10967 unique-value!80
[attach-enode] #10967 0
[mk-app] #10968 = #10966 #10967
[attach-enode] #808 0
[attach-enode] #10966 0
[attach-enode] #10968 0
[assign] #10968 justification -1: 
[mk-app] #10970 distinct-aux-f!!67 #809
[mk-app] #10969 unique-value!81
[attach-enode] #10969 0
[mk-app] #10963 = #10970 #10969
[attach-enode] #809 0
[attach-enode] #10970 0
[attach-enode] #10963 0
[assign] #10963 justification -1: 
[mk-app] #12605 distinct-aux-f!!67 #810
[mk-app] #12610 unique-value!82
[attach-enode] #12610 0
[mk-app] #12614 = #12605 #12610
[attach-enode] #810 0
[attach-enode] #12605 0
[attach-enode] #12614 0
[assign] #12614 justification -1: 
[mk-app] #12615 distinct-aux-f!!67 #811
[mk-app] #12616 unique-value!83
[attach-enode] #12616 0
[mk-app] #12617 = #12615 #12616
[attach-enode] #811 0
[attach-enode] #12615 0
[attach-enode] #12617 0
[assign] #12617 justification -1: 
[mk-app] #12579 distinct-aux-f!!67 #812
[mk-app] #12580 unique-value!84
[attach-enode] #12580 0
[mk-app] #12586 = #12579 #12580
[attach-enode] #812 0
[attach-enode] #12579 0
[attach-enode] #12586 0
[assign] #12586 justification -1: 
[mk-app] #12625 distinct-aux-f!!67 #813
[mk-app] #12626 unique-value!85
[attach-enode] #12626 0
[mk-app] #12627 = #12625 #12626
[attach-enode] #813 0
[attach-enode] #12625 0
[attach-enode] #12627 0
[assign] #12627 justification -1: 
[mk-app] #12628 distinct-aux-f!!67 #814
[mk-app] #12629 unique-value!86
[attach-enode] #12629 0
[mk-app] #12631 = #12628 #12629
[attach-enode] #814 0
[attach-enode] #12628 0
[attach-enode] #12631 0
[assign] #12631 justification -1: 
[mk-app] #12632 distinct-aux-f!!67 #815
[mk-app] #12633 unique-value!87
[attach-enode] #12633 0
[mk-app] #12618 = #12632 #12633
[attach-enode] #815 0
[attach-enode] #12632 0
[attach-enode] #12618 0
[assign] #12618 justification -1: 
[mk-app] #10916 distinct-aux-f!!67 #816
[mk-app] #10917 unique-value!88
[attach-enode] #10917 0
[mk-app] #10918 = #10916 #10917
[attach-enode] #816 0
[attach-enode] #10916 0
[attach-enode] #10918 0
[assign] #10918 justification -1: 
[mk-app] #10920 distinct-aux-f!!67 #817
[mk-app] #10901 unique-value!89
[attach-enode] #10901 0
[mk-app] #10902 = #10920 #10901
[attach-enode] #817 0
[attach-enode] #10920 0
[attach-enode] #10902 0
[assign] #10902 justification -1: 
[mk-app] #10903 distinct-aux-f!!67 #818
[mk-app] #5371 unique-value!90
[attach-enode] #5371 0
[mk-app] #10868 = #10903 #5371
[attach-enode] #818 0
[attach-enode] #10903 0
[attach-enode] #10868 0
[assign] #10868 justification -1: 
[mk-app] #10869 distinct-aux-f!!67 #819
[mk-app] #10872 unique-value!91
[attach-enode] #10872 0
[mk-app] #10870 = #10869 #10872
[attach-enode] #819 0
[attach-enode] #10869 0
[attach-enode] #10870 0
[assign] #10870 justification -1: 
[mk-app] #12541 distinct-aux-f!!67 #820
[mk-app] #12521 unique-value!92
[attach-enode] #12521 0
[mk-app] #12522 = #12541 #12521
[attach-enode] #820 0
[attach-enode] #12541 0
[attach-enode] #12522 0
[assign] #12522 justification -1: 
[mk-app] #12550 distinct-aux-f!!67 #821
[mk-app] #12551 unique-value!93
[attach-enode] #12551 0
[mk-app] #12554 = #12550 #12551
[attach-enode] #821 0
[attach-enode] #12550 0
[attach-enode] #12554 0
[assign] #12554 justification -1: 
[mk-app] #12555 distinct-aux-f!!67 #822
[mk-app] #12556 unique-value!94
[attach-enode] #12556 0
[mk-app] #12557 = #12555 #12556
[attach-enode] #822 0
[attach-enode] #12555 0
[attach-enode] #12557 0
[assign] #12557 justification -1: 
[mk-app] #12558 distinct-aux-f!!67 #823
[mk-app] #12559 unique-value!95
[attach-enode] #12559 0
[mk-app] #12560 = #12558 #12559
[attach-enode] #823 0
[attach-enode] #12558 0
[attach-enode] #12560 0
[assign] #12560 justification -1: 
[mk-app] #12546 distinct-aux-f!!67 #824
[mk-app] #10839 unique-value!96
[attach-enode] #10839 0
[mk-app] #10840 = #12546 #10839
[attach-enode] #824 0
[attach-enode] #12546 0
[attach-enode] #10840 0
[assign] #10840 justification -1: 
[mk-app] #10842 distinct-aux-f!!67 #825
[mk-app] #10841 unique-value!97
[attach-enode] #10841 0
[mk-app] #10837 = #10842 #10841
[attach-enode] #825 0
[attach-enode] #10842 0
[attach-enode] #10837 0
[assign] #10837 justification -1: 
[mk-app] #12503 distinct-aux-f!!67 #826
[mk-app] #12508 unique-value!98
[attach-enode] #12508 0
[mk-app] #12512 = #12503 #12508
[attach-enode] #826 0
[attach-enode] #12503 0
[attach-enode] #12512 0
[assign] #12512 justification -1: 
[mk-app] #12513 distinct-aux-f!!67 #827
[mk-app] #12514 unique-value!99
[attach-enode] #12514 0
[mk-app] #12515 = #12513 #12514
[attach-enode] #827 0
[attach-enode] #12513 0
[attach-enode] #12515 0
[assign] #12515 justification -1: 
[mk-app] #12517 distinct-aux-f!!67 #828
[mk-app] #12518 unique-value!100
[attach-enode] #12518 0
[mk-app] #12519 = #12517 #12518
[attach-enode] #828 0
[attach-enode] #12517 0
[attach-enode] #12519 0
[assign] #12519 justification -1: 
[mk-app] #12516 distinct-aux-f!!67 #829
[mk-app] #10810 unique-value!101
[attach-enode] #10810 0
[mk-app] #10811 = #12516 #10810
[attach-enode] #829 0
[attach-enode] #12516 0
[attach-enode] #10811 0
[assign] #10811 justification -1: 
[mk-app] #10812 distinct-aux-f!!67 #830
[mk-app] #10748 unique-value!102
[attach-enode] #10748 0
[mk-app] #10749 = #10812 #10748
[attach-enode] #830 0
[attach-enode] #10812 0
[attach-enode] #10749 0
[assign] #10749 justification -1: 
[mk-app] #10750 distinct-aux-f!!67 #831
[mk-app] #4666 unique-value!103
[attach-enode] #4666 0
[mk-app] #10721 = #10750 #4666
[attach-enode] #831 0
[attach-enode] #10750 0
[attach-enode] #10721 0
[assign] #10721 justification -1: 
[mk-app] #10722 distinct-aux-f!!67 #832
[mk-app] #10712 unique-value!104
[attach-enode] #10712 0
[mk-app] #10713 = #10722 #10712
[attach-enode] #832 0
[attach-enode] #10722 0
[attach-enode] #10713 0
[assign] #10713 justification -1: 
[mk-app] #10714 distinct-aux-f!!67 #833
[mk-app] #10671 unique-value!105
[attach-enode] #10671 0
[mk-app] #10672 = #10714 #10671
[attach-enode] #833 0
[attach-enode] #10714 0
[attach-enode] #10672 0
[assign] #10672 justification -1: 
[mk-app] #10673 distinct-aux-f!!67 #834
[mk-app] #12486 unique-value!106
[attach-enode] #12486 0
[mk-app] #12487 = #10673 #12486
[attach-enode] #834 0
[attach-enode] #10673 0
[attach-enode] #12487 0
[assign] #12487 justification -1: 
[mk-app] #12475 distinct-aux-f!!67 #835
[mk-app] #10678 unique-value!107
[attach-enode] #10678 0
[mk-app] #12479 = #12475 #10678
[attach-enode] #835 0
[attach-enode] #12475 0
[attach-enode] #12479 0
[assign] #12479 justification -1: 
[mk-app] #12480 distinct-aux-f!!67 #836
[mk-app] #12488 unique-value!108
[attach-enode] #12488 0
[mk-app] #12489 = #12480 #12488
[attach-enode] #836 0
[attach-enode] #12480 0
[attach-enode] #12489 0
[assign] #12489 justification -1: 
[mk-app] #12490 distinct-aux-f!!67 #837
[mk-app] #10561 unique-value!109
[attach-enode] #10561 0
[mk-app] #10564 = #12490 #10561
[attach-enode] #837 0
[attach-enode] #12490 0
[attach-enode] #10564 0
[assign] #10564 justification -1: 
[mk-app] #10565 distinct-aux-f!!67 #838
[mk-app] #10567 unique-value!110
[attach-enode] #10567 0
[mk-app] #10566 = #10565 #10567
[attach-enode] #838 0
[attach-enode] #10565 0
[attach-enode] #10566 0
[assign] #10566 justification -1: 
[mk-app] #10558 distinct-aux-f!!67 #839
[mk-app] #10568 unique-value!111
[attach-enode] #10568 0
[mk-app] #10569 = #10558 #10568
[attach-enode] #839 0
[attach-enode] #10558 0
[attach-enode] #10569 0
[assign] #10569 justification -1: 
[mk-app] #12440 distinct-aux-f!!67 #840
[mk-app] #12445 unique-value!112
[attach-enode] #12445 0
[mk-app] #12449 = #12440 #12445
[attach-enode] #840 0
[attach-enode] #12440 0
[attach-enode] #12449 0
[assign] #12449 justification -1: 
[mk-app] #12450 distinct-aux-f!!67 #841
[mk-app] #12451 unique-value!113
[attach-enode] #12451 0
[mk-app] #12452 = #12450 #12451
[attach-enode] #841 0
[attach-enode] #12450 0
[attach-enode] #12452 0
[assign] #12452 justification -1: 
[mk-app] #12453 distinct-aux-f!!67 #842
[mk-app] #12454 unique-value!114
[attach-enode] #12454 0
[mk-app] #12456 = #12453 #12454
[attach-enode] #842 0
[attach-enode] #12453 0
[attach-enode] #12456 0
[assign] #12456 justification -1: 
[mk-app] #12457 distinct-aux-f!!67 #843
[mk-app] #12458 unique-value!115
[attach-enode] #12458 0
[mk-app] #12455 = #12457 #12458
[attach-enode] #843 0
[attach-enode] #12457 0
[attach-enode] #12455 0
[assign] #12455 justification -1: 
[mk-app] #10412 distinct-aux-f!!67 #844
[mk-app] #10413 unique-value!116
[attach-enode] #10413 0
[mk-app] #10414 = #10412 #10413
[attach-enode] #844 0
[attach-enode] #10412 0
[attach-enode] #10414 0
[assign] #10414 justification -1: 
[mk-app] #10330 distinct-aux-f!!67 #845
[mk-app] #10332 unique-value!117
[attach-enode] #10332 0
[mk-app] #10333 = #10330 #10332
[attach-enode] #845 0
[attach-enode] #10330 0
[attach-enode] #10333 0
[assign] #10333 justification -1: 
[mk-app] #10335 distinct-aux-f!!67 #846
[mk-app] #10369 unique-value!118
[attach-enode] #10369 0
[mk-app] #10367 = #10335 #10369
[attach-enode] #846 0
[attach-enode] #10335 0
[attach-enode] #10367 0
[assign] #10367 justification -1: 
[mk-app] #12404 distinct-aux-f!!67 #847
[mk-app] #12408 unique-value!119
[attach-enode] #12408 0
[mk-app] #12412 = #12404 #12408
[attach-enode] #847 0
[attach-enode] #12404 0
[attach-enode] #12412 0
[assign] #12412 justification -1: 
[mk-app] #12413 distinct-aux-f!!67 #848
[mk-app] #12414 unique-value!120
[attach-enode] #12414 0
[mk-app] #12415 = #12413 #12414
[attach-enode] #848 0
[attach-enode] #12413 0
[attach-enode] #12415 0
[assign] #12415 justification -1: 
[mk-app] #12417 distinct-aux-f!!67 #849
[mk-app] #12418 unique-value!121
[attach-enode] #12418 0
[mk-app] #12419 = #12417 #12418
[attach-enode] #849 0
[attach-enode] #12417 0
[attach-enode] #12419 0
[assign] #12419 justification -1: 
[mk-app] #10358 distinct-aux-f!!67 #850
[mk-app] #10359 unique-value!122
[attach-enode] #10359 0
[mk-app] #10360 = #10358 #10359
[attach-enode] #850 0
[attach-enode] #10358 0
[attach-enode] #10360 0
[assign] #10360 justification -1: 
[mk-app] #10334 distinct-aux-f!!67 #851
[mk-app] #10327 unique-value!123
[attach-enode] #10327 0
[mk-app] #12376 = #10334 #10327
[attach-enode] #851 0
[attach-enode] #10334 0
[attach-enode] #12376 0
[assign] #12376 justification -1: 
[mk-app] #12380 distinct-aux-f!!67 #852
[mk-app] #12384 unique-value!124
[attach-enode] #12384 0
[mk-app] #12385 = #12380 #12384
[attach-enode] #852 0
[attach-enode] #12380 0
[attach-enode] #12385 0
[assign] #12385 justification -1: 
[mk-app] #12386 distinct-aux-f!!67 #853
[mk-app] #12387 unique-value!125
[attach-enode] #12387 0
[mk-app] #12389 = #12386 #12387
[attach-enode] #853 0
[attach-enode] #12386 0
[attach-enode] #12389 0
[assign] #12389 justification -1: 
[mk-app] #12390 distinct-aux-f!!67 #854
[mk-app] #12391 unique-value!126
[attach-enode] #12391 0
[mk-app] #10299 = #12390 #12391
[attach-enode] #854 0
[attach-enode] #12390 0
[attach-enode] #10299 0
[assign] #10299 justification -1: 
[mk-app] #10302 distinct-aux-f!!67 #855
[mk-app] #10303 unique-value!127
[attach-enode] #10303 0
[mk-app] #10305 = #10302 #10303
[attach-enode] #855 0
[attach-enode] #10302 0
[attach-enode] #10305 0
[assign] #10305 justification -1: 
[mk-app] #10304 distinct-aux-f!!67 #856
[mk-app] #10296 unique-value!128
[attach-enode] #10296 0
[mk-app] #12347 = #10304 #10296
[attach-enode] #856 0
[attach-enode] #10304 0
[attach-enode] #12347 0
[assign] #12347 justification -1: 
[mk-app] #12351 distinct-aux-f!!67 #857
[mk-app] #12355 unique-value!129
[attach-enode] #12355 0
[mk-app] #12356 = #12351 #12355
[attach-enode] #857 0
[attach-enode] #12351 0
[attach-enode] #12356 0
[assign] #12356 justification -1: 
[mk-app] #12357 distinct-aux-f!!67 #858
[mk-app] #12358 unique-value!130
[attach-enode] #12358 0
[mk-app] #12360 = #12357 #12358
[attach-enode] #858 0
[attach-enode] #12357 0
[attach-enode] #12360 0
[assign] #12360 justification -1: 
[mk-app] #12361 distinct-aux-f!!67 #859
[mk-app] #12362 unique-value!131
[attach-enode] #12362 0
[mk-app] #10270 = #12361 #12362
[attach-enode] #859 0
[attach-enode] #12361 0
[attach-enode] #10270 0
[assign] #10270 justification -1: 
[mk-app] #10273 distinct-aux-f!!67 #860
[mk-app] #10274 unique-value!132
[attach-enode] #10274 0
[mk-app] #10276 = #10273 #10274
[attach-enode] #860 0
[attach-enode] #10273 0
[attach-enode] #10276 0
[assign] #10276 justification -1: 
[mk-app] #10275 distinct-aux-f!!67 #861
[mk-app] #10267 unique-value!133
[attach-enode] #10267 0
[mk-app] #12318 = #10275 #10267
[attach-enode] #861 0
[attach-enode] #10275 0
[attach-enode] #12318 0
[assign] #12318 justification -1: 
[mk-app] #12322 distinct-aux-f!!67 #862
[mk-app] #12326 unique-value!134
[attach-enode] #12326 0
[mk-app] #12327 = #12322 #12326
[attach-enode] #862 0
[attach-enode] #12322 0
[attach-enode] #12327 0
[assign] #12327 justification -1: 
[mk-app] #12328 distinct-aux-f!!67 #863
[mk-app] #12329 unique-value!135
[attach-enode] #12329 0
[mk-app] #12331 = #12328 #12329
[attach-enode] #863 0
[attach-enode] #12328 0
[attach-enode] #12331 0
[assign] #12331 justification -1: 
[mk-app] #12332 distinct-aux-f!!67 #864
[mk-app] #12333 unique-value!136
[attach-enode] #12333 0
[mk-app] #12301 = #12332 #12333
[attach-enode] #864 0
[attach-enode] #12332 0
[attach-enode] #12301 0
[assign] #12301 justification -1: 
[mk-app] #12302 distinct-aux-f!!67 #865
[mk-app] #10241 unique-value!137
[attach-enode] #10241 0
[mk-app] #12294 = #12302 #10241
[attach-enode] #865 0
[attach-enode] #12302 0
[attach-enode] #12294 0
[assign] #12294 justification -1: 
[mk-app] #12295 distinct-aux-f!!67 #866
[mk-app] #12303 unique-value!138
[attach-enode] #12303 0
[mk-app] #12304 = #12295 #12303
[attach-enode] #866 0
[attach-enode] #12295 0
[attach-enode] #12304 0
[assign] #12304 justification -1: 
[mk-app] #12305 distinct-aux-f!!67 #867
[mk-app] #12269 unique-value!139
[attach-enode] #12269 0
[mk-app] #12270 = #12305 #12269
[attach-enode] #867 0
[attach-enode] #12305 0
[attach-enode] #12270 0
[assign] #12270 justification -1: 
[mk-app] #12271 distinct-aux-f!!67 #868
[mk-app] #12273 unique-value!140
[attach-enode] #12273 0
[mk-app] #12277 = #12271 #12273
[attach-enode] #868 0
[attach-enode] #12271 0
[attach-enode] #12277 0
[assign] #12277 justification -1: 
[mk-app] #12278 distinct-aux-f!!67 #869
[mk-app] #10193 unique-value!141
[attach-enode] #10193 0
[mk-app] #10189 = #12278 #10193
[attach-enode] #869 0
[attach-enode] #12278 0
[attach-enode] #10189 0
[assign] #10189 justification -1: 
[mk-app] #10190 distinct-aux-f!!67 #870
[mk-app] #10191 unique-value!142
[attach-enode] #10191 0
[mk-app] #10194 = #10190 #10191
[attach-enode] #870 0
[attach-enode] #10190 0
[attach-enode] #10194 0
[assign] #10194 justification -1: 
[mk-app] #10192 distinct-aux-f!!67 #871
[mk-app] #12248 unique-value!143
[attach-enode] #12248 0
[mk-app] #12233 = #10192 #12248
[attach-enode] #871 0
[attach-enode] #10192 0
[attach-enode] #12233 0
[assign] #12233 justification -1: 
[mk-app] #12234 distinct-aux-f!!67 #872
[mk-app] #12252 unique-value!144
[attach-enode] #12252 0
[mk-app] #12256 = #12234 #12252
[attach-enode] #872 0
[attach-enode] #12234 0
[attach-enode] #12256 0
[assign] #12256 justification -1: 
[mk-app] #12257 distinct-aux-f!!67 #873
[mk-app] #12258 unique-value!145
[attach-enode] #12258 0
[mk-app] #12259 = #12257 #12258
[attach-enode] #873 0
[attach-enode] #12257 0
[attach-enode] #12259 0
[assign] #12259 justification -1: 
[mk-app] #12260 distinct-aux-f!!67 #874
[mk-app] #12261 unique-value!146
[attach-enode] #12261 0
[mk-app] #12262 = #12260 #12261
[attach-enode] #874 0
[attach-enode] #12260 0
[attach-enode] #12262 0
[assign] #12262 justification -1: 
[mk-app] #10158 distinct-aux-f!!67 #875
[mk-app] #10159 unique-value!147
[attach-enode] #10159 0
[mk-app] #10160 = #10158 #10159
[attach-enode] #875 0
[attach-enode] #10158 0
[attach-enode] #10160 0
[assign] #10160 justification -1: 
[mk-app] #10121 distinct-aux-f!!67 #876
[mk-app] #10122 unique-value!148
[attach-enode] #10122 0
[mk-app] #10123 = #10121 #10122
[attach-enode] #876 0
[attach-enode] #10121 0
[attach-enode] #10123 0
[assign] #10123 justification -1: 
[mk-app] #10074 distinct-aux-f!!67 #877
[mk-app] #10077 unique-value!149
[attach-enode] #10077 0
[mk-app] #10078 = #10074 #10077
[attach-enode] #877 0
[attach-enode] #10074 0
[attach-enode] #10078 0
[assign] #10078 justification -1: 
[mk-app] #10080 distinct-aux-f!!67 #878
[mk-app] #10079 unique-value!150
[attach-enode] #10079 0
[mk-app] #10071 = #10080 #10079
[attach-enode] #878 0
[attach-enode] #10080 0
[attach-enode] #10071 0
[assign] #10071 justification -1: 
[mk-app] #12214 distinct-aux-f!!67 #879
[mk-app] #12218 unique-value!151
[attach-enode] #12218 0
[mk-app] #12222 = #12214 #12218
[attach-enode] #879 0
[attach-enode] #12214 0
[attach-enode] #12222 0
[assign] #12222 justification -1: 
[mk-app] #12223 distinct-aux-f!!67 #880
[mk-app] #12224 unique-value!152
[attach-enode] #12224 0
[mk-app] #12225 = #12223 #12224
[attach-enode] #880 0
[attach-enode] #12223 0
[attach-enode] #12225 0
[assign] #12225 justification -1: 
[mk-app] #12227 distinct-aux-f!!67 #881
[mk-app] #12228 unique-value!153
[attach-enode] #12228 0
[mk-app] #12229 = #12227 #12228
[attach-enode] #881 0
[attach-enode] #12227 0
[attach-enode] #12229 0
[assign] #12229 justification -1: 
[mk-app] #10054 distinct-aux-f!!67 #882
[mk-app] #10055 unique-value!154
[attach-enode] #10055 0
[mk-app] #10056 = #10054 #10055
[attach-enode] #882 0
[attach-enode] #10054 0
[attach-enode] #10056 0
[assign] #10056 justification -1: 
[mk-app] #10019 distinct-aux-f!!67 #883
[mk-app] #10022 unique-value!155
[attach-enode] #10022 0
[mk-app] #10023 = #10019 #10022
[attach-enode] #883 0
[attach-enode] #10019 0
[attach-enode] #10023 0
[assign] #10023 justification -1: 
[mk-app] #10025 distinct-aux-f!!67 #884
[mk-app] #10024 unique-value!156
[attach-enode] #10024 0
[mk-app] #10016 = #10025 #10024
[attach-enode] #884 0
[attach-enode] #10025 0
[attach-enode] #10016 0
[assign] #10016 justification -1: 
[mk-app] #12182 distinct-aux-f!!67 #885
[mk-app] #12186 unique-value!157
[attach-enode] #12186 0
[mk-app] #12190 = #12182 #12186
[attach-enode] #885 0
[attach-enode] #12182 0
[attach-enode] #12190 0
[assign] #12190 justification -1: 
[mk-app] #12191 distinct-aux-f!!67 #886
[mk-app] #12192 unique-value!158
[attach-enode] #12192 0
[mk-app] #12193 = #12191 #12192
[attach-enode] #886 0
[attach-enode] #12191 0
[attach-enode] #12193 0
[assign] #12193 justification -1: 
[mk-app] #12195 distinct-aux-f!!67 #887
[mk-app] #12196 unique-value!159
[attach-enode] #12196 0
[mk-app] #12197 = #12195 #12196
[attach-enode] #887 0
[attach-enode] #12195 0
[attach-enode] #12197 0
[assign] #12197 justification -1: 
[mk-app] #9995 distinct-aux-f!!67 #888
[mk-app] #9996 unique-value!160
[attach-enode] #9996 0
[mk-app] #9997 = #9995 #9996
[attach-enode] #888 0
[attach-enode] #9995 0
[attach-enode] #9997 0
[assign] #9997 justification -1: 
[mk-app] #9941 distinct-aux-f!!67 #889
[mk-app] #9944 unique-value!161
[attach-enode] #9944 0
[mk-app] #9945 = #9941 #9944
[attach-enode] #889 0
[attach-enode] #9941 0
[attach-enode] #9945 0
[assign] #9945 justification -1: 
[mk-app] #9947 distinct-aux-f!!67 #890
[mk-app] #9946 unique-value!162
[attach-enode] #9946 0
[mk-app] #9938 = #9947 #9946
[attach-enode] #890 0
[attach-enode] #9947 0
[attach-enode] #9938 0
[assign] #9938 justification -1: 
[mk-app] #12147 distinct-aux-f!!67 #891
[mk-app] #12156 unique-value!163
[attach-enode] #12156 0
[mk-app] #12159 = #12147 #12156
[attach-enode] #891 0
[attach-enode] #12147 0
[attach-enode] #12159 0
[assign] #12159 justification -1: 
[mk-app] #12160 distinct-aux-f!!67 #892
[mk-app] #12161 unique-value!164
[attach-enode] #12161 0
[mk-app] #12162 = #12160 #12161
[attach-enode] #892 0
[attach-enode] #12160 0
[attach-enode] #12162 0
[assign] #12162 justification -1: 
[mk-app] #12164 distinct-aux-f!!67 #893
[mk-app] #12165 unique-value!165
[attach-enode] #12165 0
[mk-app] #12166 = #12164 #12165
[attach-enode] #893 0
[attach-enode] #12164 0
[attach-enode] #12166 0
[assign] #12166 justification -1: 
[mk-app] #12163 distinct-aux-f!!67 #894
[mk-app] #9915 unique-value!166
[attach-enode] #9915 0
[mk-app] #9916 = #12163 #9915
[attach-enode] #894 0
[attach-enode] #12163 0
[attach-enode] #9916 0
[assign] #9916 justification -1: 
[mk-app] #9917 distinct-aux-f!!67 #895
[mk-app] #12121 unique-value!167
[attach-enode] #12121 0
[mk-app] #12122 = #9917 #12121
[attach-enode] #895 0
[attach-enode] #9917 0
[attach-enode] #12122 0
[assign] #12122 justification -1: 
[mk-app] #12114 distinct-aux-f!!67 #896
[mk-app] #12115 unique-value!168
[attach-enode] #12115 0
[mk-app] #12123 = #12114 #12115
[attach-enode] #896 0
[attach-enode] #12114 0
[attach-enode] #12123 0
[assign] #12123 justification -1: 
[mk-app] #12124 distinct-aux-f!!67 #897
[mk-app] #12125 unique-value!169
[attach-enode] #12125 0
[mk-app] #12099 = #12124 #12125
[attach-enode] #897 0
[attach-enode] #12124 0
[attach-enode] #12099 0
[assign] #12099 justification -1: 
[mk-app] #12100 distinct-aux-f!!67 #898
[mk-app] #12101 unique-value!170
[attach-enode] #12101 0
[mk-app] #12103 = #12100 #12101
[attach-enode] #898 0
[attach-enode] #12100 0
[attach-enode] #12103 0
[assign] #12103 justification -1: 
[mk-app] #12107 distinct-aux-f!!67 #899
[mk-app] #12108 unique-value!171
[attach-enode] #12108 0
[mk-app] #9846 = #12107 #12108
[attach-enode] #899 0
[attach-enode] #12107 0
[attach-enode] #9846 0
[assign] #9846 justification -1: 
[mk-app] #9847 distinct-aux-f!!67 #900
[mk-app] #9848 unique-value!172
[attach-enode] #9848 0
[mk-app] #9849 = #9847 #9848
[attach-enode] #900 0
[attach-enode] #9847 0
[attach-enode] #9849 0
[assign] #9849 justification -1: 
[mk-app] #9813 distinct-aux-f!!67 #901
[mk-app] #9814 unique-value!173
[attach-enode] #9814 0
[mk-app] #9815 = #9813 #9814
[attach-enode] #901 0
[attach-enode] #9813 0
[attach-enode] #9815 0
[assign] #9815 justification -1: 
[mk-app] #9816 distinct-aux-f!!67 #902
[mk-app] #9818 unique-value!174
[attach-enode] #9818 0
[mk-app] #9788 = #9816 #9818
[attach-enode] #902 0
[attach-enode] #9816 0
[attach-enode] #9788 0
[assign] #9788 justification -1: 
[mk-app] #9789 distinct-aux-f!!67 #903
[mk-app] #9790 unique-value!175
[attach-enode] #9790 0
[mk-app] #9791 = #9789 #9790
[attach-enode] #903 0
[attach-enode] #9789 0
[attach-enode] #9791 0
[assign] #9791 justification -1: 
[mk-app] #9793 distinct-aux-f!!67 #904
[mk-app] #9766 unique-value!176
[attach-enode] #9766 0
[mk-app] #9767 = #9793 #9766
[attach-enode] #904 0
[attach-enode] #9793 0
[attach-enode] #9767 0
[assign] #9767 justification -1: 
[mk-app] #9768 distinct-aux-f!!67 #905
[mk-app] #9756 unique-value!177
[attach-enode] #9756 0
[mk-app] #9757 = #9768 #9756
[attach-enode] #905 0
[attach-enode] #9768 0
[attach-enode] #9757 0
[assign] #9757 justification -1: 
[mk-app] #9758 distinct-aux-f!!67 #906
[mk-app] #9726 unique-value!178
[attach-enode] #9726 0
[mk-app] #12073 = #9758 #9726
[attach-enode] #906 0
[attach-enode] #9758 0
[attach-enode] #12073 0
[assign] #12073 justification -1: 
[mk-app] #12091 distinct-aux-f!!67 #907
[mk-app] #12092 unique-value!179
[attach-enode] #12092 0
[mk-app] #9692 = #12091 #12092
[attach-enode] #907 0
[attach-enode] #12091 0
[attach-enode] #9692 0
[assign] #9692 justification -1: 
[mk-app] #9693 distinct-aux-f!!67 #908
[mk-app] #9694 unique-value!180
[attach-enode] #9694 0
[mk-app] #9620 = #9693 #9694
[attach-enode] #908 0
[attach-enode] #9693 0
[attach-enode] #9620 0
[assign] #9620 justification -1: 
[mk-app] #9621 distinct-aux-f!!67 #909
[mk-app] #9622 unique-value!181
[attach-enode] #9622 0
[mk-app] #9576 = #9621 #9622
[attach-enode] #909 0
[attach-enode] #9621 0
[attach-enode] #9576 0
[assign] #9576 justification -1: 
[mk-app] #9577 distinct-aux-f!!67 #910
[mk-app] #9578 unique-value!182
[attach-enode] #9578 0
[mk-app] #9579 = #9577 #9578
[attach-enode] #910 0
[attach-enode] #9577 0
[attach-enode] #9579 0
[assign] #9579 justification -1: 
[mk-app] #9561 distinct-aux-f!!67 #911
[mk-app] #9562 unique-value!183
[attach-enode] #9562 0
[mk-app] #9563 = #9561 #9562
[attach-enode] #911 0
[attach-enode] #9561 0
[attach-enode] #9563 0
[assign] #9563 justification -1: 
[mk-app] #5007 distinct-aux-f!!67 #912
[mk-app] #9547 unique-value!184
[attach-enode] #9547 0
[mk-app] #9548 = #5007 #9547
[attach-enode] #912 0
[attach-enode] #5007 0
[attach-enode] #9548 0
[assign] #9548 justification -1: 
[mk-app] #9541 distinct-aux-f!!67 #913
[mk-app] #9542 unique-value!185
[attach-enode] #9542 0
[mk-app] #9535 = #9541 #9542
[attach-enode] #913 0
[attach-enode] #9541 0
[attach-enode] #9535 0
[assign] #9535 justification -1: 
[mk-app] #9536 distinct-aux-f!!67 #914
[mk-app] #9387 unique-value!186
[attach-enode] #9387 0
[mk-app] #9523 = #9536 #9387
[attach-enode] #914 0
[attach-enode] #9536 0
[attach-enode] #9523 0
[assign] #9523 justification -1: 
[mk-app] #9524 distinct-aux-f!!67 #915
[mk-app] #9525 unique-value!187
[attach-enode] #9525 0
[mk-app] #9526 = #9524 #9525
[attach-enode] #915 0
[attach-enode] #9524 0
[attach-enode] #9526 0
[assign] #9526 justification -1: 
[mk-app] #9527 distinct-aux-f!!67 #916
[mk-app] #9528 unique-value!188
[attach-enode] #9528 0
[mk-app] #9530 = #9527 #9528
[attach-enode] #916 0
[attach-enode] #9527 0
[attach-enode] #9530 0
[assign] #9530 justification -1: 
[mk-app] #9276 distinct-aux-f!!67 #917
[mk-app] #9492 unique-value!189
[attach-enode] #9492 0
[mk-app] #9493 = #9276 #9492
[attach-enode] #917 0
[attach-enode] #9276 0
[attach-enode] #9493 0
[assign] #9493 justification -1: 
[mk-app] #9495 distinct-aux-f!!67 #918
[mk-app] #9478 unique-value!190
[attach-enode] #9478 0
[mk-app] #9479 = #9495 #9478
[attach-enode] #918 0
[attach-enode] #9495 0
[attach-enode] #9479 0
[assign] #9479 justification -1: 
[mk-app] #9481 distinct-aux-f!!67 #919
[mk-app] #9447 unique-value!191
[attach-enode] #9447 0
[mk-app] #9448 = #9481 #9447
[attach-enode] #919 0
[attach-enode] #9481 0
[attach-enode] #9448 0
[assign] #9448 justification -1: 
[mk-app] #9450 distinct-aux-f!!67 #920
[mk-app] #9432 unique-value!192
[attach-enode] #9432 0
[mk-app] #9433 = #9450 #9432
[attach-enode] #920 0
[attach-enode] #9450 0
[attach-enode] #9433 0
[assign] #9433 justification -1: 
[mk-app] #9426 distinct-aux-f!!67 #921
[mk-app] #9427 unique-value!193
[attach-enode] #9427 0
[mk-app] #9420 = #9426 #9427
[attach-enode] #921 0
[attach-enode] #9426 0
[attach-enode] #9420 0
[assign] #9420 justification -1: 
[mk-app] #9421 distinct-aux-f!!67 #922
[mk-app] #9414 unique-value!194
[attach-enode] #9414 0
[mk-app] #9415 = #9421 #9414
[attach-enode] #922 0
[attach-enode] #9421 0
[attach-enode] #9415 0
[assign] #9415 justification -1: 
[mk-app] #9413 distinct-aux-f!!67 #923
[mk-app] #9383 unique-value!195
[attach-enode] #9383 0
[mk-app] #9384 = #9413 #9383
[attach-enode] #923 0
[attach-enode] #9413 0
[attach-enode] #9384 0
[assign] #9384 justification -1: 
[mk-app] #9385 distinct-aux-f!!67 #924
[mk-app] #9386 unique-value!196
[attach-enode] #9386 0
[mk-app] #9388 = #9385 #9386
[attach-enode] #924 0
[attach-enode] #9385 0
[attach-enode] #9388 0
[assign] #9388 justification -1: 
[mk-app] #9389 distinct-aux-f!!67 #925
[mk-app] #9391 unique-value!197
[attach-enode] #9391 0
[mk-app] #9353 = #9389 #9391
[attach-enode] #925 0
[attach-enode] #9389 0
[attach-enode] #9353 0
[assign] #9353 justification -1: 
[mk-app] #9354 distinct-aux-f!!67 #926
[mk-app] #9356 unique-value!198
[attach-enode] #9356 0
[mk-app] #9338 = #9354 #9356
[attach-enode] #926 0
[attach-enode] #9354 0
[attach-enode] #9338 0
[assign] #9338 justification -1: 
[mk-app] #9339 distinct-aux-f!!67 #927
[mk-app] #9340 unique-value!199
[attach-enode] #9340 0
[mk-app] #9277 = #9339 #9340
[attach-enode] #927 0
[attach-enode] #9339 0
[attach-enode] #9277 0
[assign] #9277 justification -1: 
[mk-app] #9278 distinct-aux-f!!67 #928
[mk-app] #9280 unique-value!200
[attach-enode] #9280 0
[mk-app] #9250 = #9278 #9280
[attach-enode] #928 0
[attach-enode] #9278 0
[attach-enode] #9250 0
[assign] #9250 justification -1: 
[mk-app] #9231 distinct-aux-f!!67 #929
[mk-app] #9235 unique-value!201
[attach-enode] #9235 0
[mk-app] #9236 = #9231 #9235
[attach-enode] #929 0
[attach-enode] #9231 0
[attach-enode] #9236 0
[assign] #9236 justification -1: 
[mk-app] #9248 distinct-aux-f!!67 #930
[mk-app] #9246 unique-value!202
[attach-enode] #9246 0
[mk-app] #9247 = #9248 #9246
[attach-enode] #930 0
[attach-enode] #9248 0
[attach-enode] #9247 0
[assign] #9247 justification -1: 
[mk-app] #9251 distinct-aux-f!!67 #931
[mk-app] #9249 unique-value!203
[attach-enode] #9249 0
[mk-app] #9242 = #9251 #9249
[attach-enode] #931 0
[attach-enode] #9251 0
[attach-enode] #9242 0
[assign] #9242 justification -1: 
[mk-app] #9207 distinct-aux-f!!67 #932
[mk-app] #9201 unique-value!204
[attach-enode] #9201 0
[mk-app] #9204 = #9207 #9201
[attach-enode] #932 0
[attach-enode] #9207 0
[attach-enode] #9204 0
[assign] #9204 justification -1: 
[mk-app] #9205 distinct-aux-f!!67 #933
[mk-app] #9208 unique-value!205
[attach-enode] #9208 0
[mk-app] #9206 = #9205 #9208
[attach-enode] #933 0
[attach-enode] #9205 0
[attach-enode] #9206 0
[assign] #9206 justification -1: 
[mk-app] #9198 distinct-aux-f!!67 #934
[mk-app] #2324 unique-value!206
[attach-enode] #2324 0
[mk-app] #9126 = #9198 #2324
[attach-enode] #934 0
[attach-enode] #9198 0
[attach-enode] #9126 0
[assign] #9126 justification -1: 
[mk-app] #9127 distinct-aux-f!!67 #935
[mk-app] #9128 unique-value!207
[attach-enode] #9128 0
[mk-app] #9129 = #9127 #9128
[attach-enode] #935 0
[attach-enode] #9127 0
[attach-enode] #9129 0
[assign] #9129 justification -1: 
[mk-app] #9130 distinct-aux-f!!67 #936
[mk-app] #9131 unique-value!208
[attach-enode] #9131 0
[mk-app] #9132 = #9130 #9131
[attach-enode] #936 0
[attach-enode] #9130 0
[attach-enode] #9132 0
[assign] #9132 justification -1: 
[mk-app] #9133 distinct-aux-f!!67 #937
[mk-app] #9136 unique-value!209
[attach-enode] #9136 0
[mk-app] #9137 = #9133 #9136
[attach-enode] #937 0
[attach-enode] #9133 0
[attach-enode] #9137 0
[assign] #9137 justification -1: 
[mk-app] #9138 distinct-aux-f!!67 #938
[mk-app] #9139 unique-value!210
[attach-enode] #9139 0
[mk-app] #9140 = #9138 #9139
[attach-enode] #938 0
[attach-enode] #9138 0
[attach-enode] #9140 0
[assign] #9140 justification -1: 
[mk-app] #9141 distinct-aux-f!!67 #939
[mk-app] #9142 unique-value!211
[attach-enode] #9142 0
[mk-app] #9143 = #9141 #9142
[attach-enode] #939 0
[attach-enode] #9141 0
[attach-enode] #9143 0
[assign] #9143 justification -1: 
[mk-app] #9144 distinct-aux-f!!67 #940
[mk-app] #9145 unique-value!212
[attach-enode] #9145 0
[mk-app] #9147 = #9144 #9145
[attach-enode] #940 0
[attach-enode] #9144 0
[attach-enode] #9147 0
[assign] #9147 justification -1: 
[mk-app] #9146 distinct-aux-f!!67 #941
[mk-app] #9150 unique-value!213
[attach-enode] #9150 0
[mk-app] #9151 = #9146 #9150
[attach-enode] #941 0
[attach-enode] #9146 0
[attach-enode] #9151 0
[assign] #9151 justification -1: 
[mk-app] #9152 distinct-aux-f!!67 #942
[mk-app] #9153 unique-value!214
[attach-enode] #9153 0
[mk-app] #9154 = #9152 #9153
[attach-enode] #942 0
[attach-enode] #9152 0
[attach-enode] #9154 0
[assign] #9154 justification -1: 
[mk-app] #9155 distinct-aux-f!!67 #943
[mk-app] #9164 unique-value!215
[attach-enode] #9164 0
[mk-app] #9165 = #9155 #9164
[attach-enode] #943 0
[attach-enode] #9155 0
[attach-enode] #9165 0
[assign] #9165 justification -1: 
[mk-app] #9159 distinct-aux-f!!67 #944
[mk-app] #12043 unique-value!216
[attach-enode] #12043 0
[mk-app] #11827 = #9159 #12043
[attach-enode] #944 0
[attach-enode] #9159 0
[attach-enode] #11827 0
[assign] #11827 justification -1: 
[mk-app] #11828 distinct-aux-f!!67 #945
[mk-app] #11831 unique-value!217
[attach-enode] #11831 0
[mk-app] #11832 = #11828 #11831
[attach-enode] #945 0
[attach-enode] #11828 0
[attach-enode] #11832 0
[assign] #11832 justification -1: 
[mk-app] #11837 distinct-aux-f!!67 #946
[mk-app] #11838 unique-value!218
[attach-enode] #11838 0
[mk-app] #11841 = #11837 #11838
[attach-enode] #946 0
[attach-enode] #11837 0
[attach-enode] #11841 0
[assign] #11841 justification -1: 
[mk-app] #11842 distinct-aux-f!!67 #947
[mk-app] #11847 unique-value!219
[attach-enode] #11847 0
[mk-app] #11848 = #11842 #11847
[attach-enode] #947 0
[attach-enode] #11842 0
[attach-enode] #11848 0
[assign] #11848 justification -1: 
[mk-app] #11851 distinct-aux-f!!67 #948
[mk-app] #11852 unique-value!220
[attach-enode] #11852 0
[mk-app] #11857 = #11851 #11852
[attach-enode] #948 0
[attach-enode] #11851 0
[attach-enode] #11857 0
[assign] #11857 justification -1: 
[mk-app] #11858 distinct-aux-f!!67 #949
[mk-app] #11861 unique-value!221
[attach-enode] #11861 0
[mk-app] #11862 = #11858 #11861
[attach-enode] #949 0
[attach-enode] #11858 0
[attach-enode] #11862 0
[assign] #11862 justification -1: 
[mk-app] #11874 distinct-aux-f!!67 #950
[mk-app] #11875 unique-value!222
[attach-enode] #11875 0
[mk-app] #11878 = #11874 #11875
[attach-enode] #950 0
[attach-enode] #11874 0
[attach-enode] #11878 0
[assign] #11878 justification -1: 
[mk-app] #11879 distinct-aux-f!!67 #951
[mk-app] #11884 unique-value!223
[attach-enode] #11884 0
[mk-app] #11885 = #11879 #11884
[attach-enode] #951 0
[attach-enode] #11879 0
[attach-enode] #11885 0
[assign] #11885 justification -1: 
[mk-app] #11888 distinct-aux-f!!67 #952
[mk-app] #11889 unique-value!224
[attach-enode] #11889 0
[mk-app] #11894 = #11888 #11889
[attach-enode] #952 0
[attach-enode] #11888 0
[attach-enode] #11894 0
[assign] #11894 justification -1: 
[mk-app] #11895 distinct-aux-f!!67 #953
[mk-app] #11905 unique-value!225
[attach-enode] #11905 0
[mk-app] #11906 = #11895 #11905
[attach-enode] #953 0
[attach-enode] #11895 0
[attach-enode] #11906 0
[assign] #11906 justification -1: 
[mk-app] #11911 distinct-aux-f!!67 #954
[mk-app] #11912 unique-value!226
[attach-enode] #11912 0
[mk-app] #11922 = #11911 #11912
[attach-enode] #954 0
[attach-enode] #11911 0
[attach-enode] #11922 0
[assign] #11922 justification -1: 
[mk-app] #11923 distinct-aux-f!!67 #955
[mk-app] #11928 unique-value!227
[attach-enode] #11928 0
[mk-app] #11929 = #11923 #11928
[attach-enode] #955 0
[attach-enode] #11923 0
[attach-enode] #11929 0
[assign] #11929 justification -1: 
[mk-app] #11939 distinct-aux-f!!67 #956
[mk-app] #11940 unique-value!228
[attach-enode] #11940 0
[mk-app] #11945 = #11939 #11940
[attach-enode] #956 0
[attach-enode] #11939 0
[attach-enode] #11945 0
[assign] #11945 justification -1: 
[mk-app] #11946 distinct-aux-f!!67 #957
[mk-app] #11957 unique-value!229
[attach-enode] #11957 0
[mk-app] #11958 = #11946 #11957
[attach-enode] #957 0
[attach-enode] #11946 0
[attach-enode] #11958 0
[assign] #11958 justification -1: 
[mk-app] #11975 distinct-aux-f!!67 #958
[mk-app] #11976 unique-value!230
[attach-enode] #11976 0
[mk-app] #11986 = #11975 #11976
[attach-enode] #958 0
[attach-enode] #11975 0
[attach-enode] #11986 0
[assign] #11986 justification -1: 
[mk-app] #11987 distinct-aux-f!!67 #959
[mk-app] #11992 unique-value!231
[attach-enode] #11992 0
[mk-app] #11993 = #11987 #11992
[attach-enode] #959 0
[attach-enode] #11987 0
[attach-enode] #11993 0
[assign] #11993 justification -1: 
[mk-app] #12003 distinct-aux-f!!67 #960
[mk-app] #12004 unique-value!232
[attach-enode] #12004 0
[mk-app] #12009 = #12003 #12004
[attach-enode] #960 0
[attach-enode] #12003 0
[attach-enode] #12009 0
[assign] #12009 justification -1: 
[mk-app] #12010 distinct-aux-f!!67 #961
[mk-app] #12017 unique-value!233
[attach-enode] #12017 0
[mk-app] #12018 = #12010 #12017
[attach-enode] #961 0
[attach-enode] #12010 0
[attach-enode] #12018 0
[assign] #12018 justification -1: 
[mk-app] #12023 distinct-aux-f!!67 #962
[mk-app] #12024 unique-value!234
[attach-enode] #12024 0
[mk-app] #12038 = #12023 #12024
[attach-enode] #962 0
[attach-enode] #12023 0
[attach-enode] #12038 0
[assign] #12038 justification -1: 
[mk-app] #12039 distinct-aux-f!!67 #963
[mk-app] #12048 unique-value!235
[attach-enode] #12048 0
[mk-app] #12049 = #12039 #12048
[attach-enode] #963 0
[attach-enode] #12039 0
[attach-enode] #12049 0
[assign] #12049 justification -1: 
[mk-app] #12050 distinct-aux-f!!67 #964
[mk-app] #12051 unique-value!236
[attach-enode] #12051 0
[mk-app] #2604 = #12050 #12051
[attach-enode] #964 0
[attach-enode] #12050 0
[attach-enode] #2604 0
[assign] #2604 justification -1: 
[mk-app] #8927 distinct-aux-f!!67 #965
[mk-app] #8928 unique-value!237
[attach-enode] #8928 0
[mk-app] #8916 = #8927 #8928
[attach-enode] #965 0
[attach-enode] #8927 0
[attach-enode] #8916 0
[assign] #8916 justification -1: 
[mk-app] #8917 distinct-aux-f!!67 #966
[mk-app] #8884 unique-value!238
[attach-enode] #8884 0
[mk-app] #8885 = #8917 #8884
[attach-enode] #966 0
[attach-enode] #8917 0
[attach-enode] #8885 0
[assign] #8885 justification -1: 
[mk-app] #8873 distinct-aux-f!!67 #967
[mk-app] #8874 unique-value!239
[attach-enode] #8874 0
[mk-app] #8865 = #8873 #8874
[attach-enode] #967 0
[attach-enode] #8873 0
[attach-enode] #8865 0
[assign] #8865 justification -1: 
[mk-app] #8866 distinct-aux-f!!67 #968
[mk-app] #8867 unique-value!240
[attach-enode] #8867 0
[mk-app] #8819 = #8866 #8867
[attach-enode] #968 0
[attach-enode] #8866 0
[attach-enode] #8819 0
[assign] #8819 justification -1: 
[mk-app] #8820 distinct-aux-f!!67 #969
[mk-app] #8807 unique-value!241
[attach-enode] #8807 0
[mk-app] #8808 = #8820 #8807
[attach-enode] #969 0
[attach-enode] #8820 0
[attach-enode] #8808 0
[assign] #8808 justification -1: 
[mk-app] #8799 distinct-aux-f!!67 #970
[mk-app] #8800 unique-value!242
[attach-enode] #8800 0
[mk-app] #8801 = #8799 #8800
[attach-enode] #970 0
[attach-enode] #8799 0
[attach-enode] #8801 0
[assign] #8801 justification -1: 
[mk-app] #8772 distinct-aux-f!!67 #971
[mk-app] #8773 unique-value!243
[attach-enode] #8773 0
[mk-app] #8760 = #8772 #8773
[attach-enode] #971 0
[attach-enode] #8772 0
[attach-enode] #8760 0
[assign] #8760 justification -1: 
[mk-app] #8761 distinct-aux-f!!67 #972
[mk-app] #8752 unique-value!244
[attach-enode] #8752 0
[mk-app] #8753 = #8761 #8752
[attach-enode] #972 0
[attach-enode] #8761 0
[attach-enode] #8753 0
[assign] #8753 justification -1: 
[mk-app] #8754 distinct-aux-f!!67 #973
[mk-app] #8725 unique-value!245
[attach-enode] #8725 0
[mk-app] #8726 = #8754 #8725
[attach-enode] #973 0
[attach-enode] #8754 0
[attach-enode] #8726 0
[assign] #8726 justification -1: 
[mk-app] #8713 distinct-aux-f!!67 #974
[mk-app] #8714 unique-value!246
[attach-enode] #8714 0
[mk-app] #8705 = #8713 #8714
[attach-enode] #974 0
[attach-enode] #8713 0
[attach-enode] #8705 0
[assign] #8705 justification -1: 
[mk-app] #8706 distinct-aux-f!!67 #975
[mk-app] #8707 unique-value!247
[attach-enode] #8707 0
[mk-app] #8678 = #8706 #8707
[attach-enode] #975 0
[attach-enode] #8706 0
[attach-enode] #8678 0
[assign] #8678 justification -1: 
[mk-app] #8679 distinct-aux-f!!67 #976
[mk-app] #8666 unique-value!248
[attach-enode] #8666 0
[mk-app] #8667 = #8679 #8666
[attach-enode] #976 0
[attach-enode] #8679 0
[attach-enode] #8667 0
[assign] #8667 justification -1: 
[mk-app] #8636 distinct-aux-f!!67 #977
[mk-app] #8637 unique-value!249
[attach-enode] #8637 0
[mk-app] #8638 = #8636 #8637
[attach-enode] #977 0
[attach-enode] #8636 0
[attach-enode] #8638 0
[assign] #8638 justification -1: 
[mk-app] #8625 distinct-aux-f!!67 #978
[mk-app] #8626 unique-value!250
[attach-enode] #8626 0
[mk-app] #8617 = #8625 #8626
[attach-enode] #978 0
[attach-enode] #8625 0
[attach-enode] #8617 0
[assign] #8617 justification -1: 
[mk-app] #8618 distinct-aux-f!!67 #979
[mk-app] #8603 unique-value!251
[attach-enode] #8603 0
[mk-app] #8604 = #8618 #8603
[attach-enode] #979 0
[attach-enode] #8618 0
[attach-enode] #8604 0
[assign] #8604 justification -1: 
[mk-app] #8605 distinct-aux-f!!67 #980
[mk-app] #8594 unique-value!252
[attach-enode] #8594 0
[mk-app] #8595 = #8605 #8594
[attach-enode] #980 0
[attach-enode] #8605 0
[attach-enode] #8595 0
[assign] #8595 justification -1: 
[mk-app] #8596 distinct-aux-f!!67 #981
[mk-app] #8561 unique-value!253
[attach-enode] #8561 0
[mk-app] #8564 = #8596 #8561
[attach-enode] #981 0
[attach-enode] #8596 0
[attach-enode] #8564 0
[assign] #8564 justification -1: 
[mk-app] #8562 distinct-aux-f!!67 #982
[mk-app] #8566 unique-value!254
[attach-enode] #8566 0
[mk-app] #3648 = #8562 #8566
[attach-enode] #982 0
[attach-enode] #8562 0
[attach-enode] #3648 0
[assign] #3648 justification -1: 
[mk-app] #8545 distinct-aux-f!!67 #983
[mk-app] #8546 unique-value!255
[attach-enode] #8546 0
[mk-app] #8539 = #8545 #8546
[attach-enode] #983 0
[attach-enode] #8545 0
[attach-enode] #8539 0
[assign] #8539 justification -1: 
[mk-app] #8540 distinct-aux-f!!67 #984
[mk-app] #8495 unique-value!256
[attach-enode] #8495 0
[mk-app] #8489 = #8540 #8495
[attach-enode] #984 0
[attach-enode] #8540 0
[attach-enode] #8489 0
[assign] #8489 justification -1: 
[mk-app] #8509 distinct-aux-f!!67 #985
[mk-app] #8512 unique-value!257
[attach-enode] #8512 0
[mk-app] #8513 = #8509 #8512
[attach-enode] #985 0
[attach-enode] #8509 0
[attach-enode] #8513 0
[assign] #8513 justification -1: 
[mk-app] #8511 distinct-aux-f!!67 #986
[mk-app] #8508 unique-value!258
[attach-enode] #8508 0
[mk-app] #8492 = #8511 #8508
[attach-enode] #986 0
[attach-enode] #8511 0
[attach-enode] #8492 0
[assign] #8492 justification -1: 
[mk-app] #8493 distinct-aux-f!!67 #987
[mk-app] #8496 unique-value!259
[attach-enode] #8496 0
[mk-app] #8494 = #8493 #8496
[attach-enode] #987 0
[attach-enode] #8493 0
[attach-enode] #8494 0
[assign] #8494 justification -1: 
[mk-app] #8487 distinct-aux-f!!67 #988
[mk-app] #3509 unique-value!260
[attach-enode] #3509 0
[mk-app] #8467 = #8487 #3509
[attach-enode] #988 0
[attach-enode] #8487 0
[attach-enode] #8467 0
[assign] #8467 justification -1: 
[mk-app] #8468 distinct-aux-f!!67 #989
[mk-app] #8458 unique-value!261
[attach-enode] #8458 0
[mk-app] #8459 = #8468 #8458
[attach-enode] #989 0
[attach-enode] #8468 0
[attach-enode] #8459 0
[assign] #8459 justification -1: 
[mk-app] #8460 distinct-aux-f!!67 #990
[mk-app] #8462 unique-value!262
[attach-enode] #8462 0
[mk-app] #5821 = #8460 #8462
[attach-enode] #990 0
[attach-enode] #8460 0
[attach-enode] #5821 0
[assign] #5821 justification -1: 
[mk-app] #8443 distinct-aux-f!!67 #991
[mk-app] #8444 unique-value!263
[attach-enode] #8444 0
[mk-app] #5809 = #8443 #8444
[attach-enode] #991 0
[attach-enode] #8443 0
[attach-enode] #5809 0
[assign] #5809 justification -1: 
[mk-app] #5812 distinct-aux-f!!67 #992
[mk-app] #8437 unique-value!264
[attach-enode] #8437 0
[mk-app] #8438 = #5812 #8437
[attach-enode] #992 0
[attach-enode] #5812 0
[attach-enode] #8438 0
[assign] #8438 justification -1: 
[mk-app] #8439 distinct-aux-f!!67 #993
[mk-app] #8421 unique-value!265
[attach-enode] #8421 0
[mk-app] #8422 = #8439 #8421
[attach-enode] #993 0
[attach-enode] #8439 0
[attach-enode] #8422 0
[assign] #8422 justification -1: 
[mk-app] #8424 distinct-aux-f!!67 #994
[mk-app] #8423 unique-value!266
[attach-enode] #8423 0
[mk-app] #8426 = #8424 #8423
[attach-enode] #994 0
[attach-enode] #8424 0
[attach-enode] #8426 0
[assign] #8426 justification -1: 
[mk-app] #8408 distinct-aux-f!!67 #995
[mk-app] #8409 unique-value!267
[attach-enode] #8409 0
[mk-app] #8384 = #8408 #8409
[attach-enode] #995 0
[attach-enode] #8408 0
[attach-enode] #8384 0
[assign] #8384 justification -1: 
[mk-app] #8389 distinct-aux-f!!67 #996
[mk-app] #8388 unique-value!268
[attach-enode] #8388 0
[mk-app] #8391 = #8389 #8388
[attach-enode] #996 0
[attach-enode] #8389 0
[attach-enode] #8391 0
[assign] #8391 justification -1: 
[mk-app] #8390 distinct-aux-f!!67 #997
[mk-app] #8393 unique-value!269
[attach-enode] #8393 0
[mk-app] #8351 = #8390 #8393
[attach-enode] #997 0
[attach-enode] #8390 0
[attach-enode] #8351 0
[assign] #8351 justification -1: 
[mk-app] #8352 distinct-aux-f!!67 #998
[mk-app] #8353 unique-value!270
[attach-enode] #8353 0
[mk-app] #8355 = #8352 #8353
[attach-enode] #998 0
[attach-enode] #8352 0
[attach-enode] #8355 0
[assign] #8355 justification -1: 
[mk-app] #8322 distinct-aux-f!!67 #999
[mk-app] #8323 unique-value!271
[attach-enode] #8323 0
[mk-app] #8324 = #8322 #8323
[attach-enode] #999 0
[attach-enode] #8322 0
[attach-enode] #8324 0
[assign] #8324 justification -1: 
[mk-app] #4990 distinct-aux-f!!67 #1000
[mk-app] #8315 unique-value!272
[attach-enode] #8315 0
[mk-app] #8316 = #4990 #8315
[attach-enode] #1000 0
[attach-enode] #4990 0
[attach-enode] #8316 0
[assign] #8316 justification -1: 
[mk-app] #8306 distinct-aux-f!!67 #1001
[mk-app] #8307 unique-value!273
[attach-enode] #8307 0
[mk-app] #8308 = #8306 #8307
[attach-enode] #1001 0
[attach-enode] #8306 0
[attach-enode] #8308 0
[assign] #8308 justification -1: 
[mk-app] #8310 distinct-aux-f!!67 #1002
[mk-app] #8288 unique-value!274
[attach-enode] #8288 0
[mk-app] #8289 = #8310 #8288
[attach-enode] #1002 0
[attach-enode] #8310 0
[attach-enode] #8289 0
[assign] #8289 justification -1: 
[mk-app] #8290 distinct-aux-f!!67 #1003
[mk-app] #8292 unique-value!275
[attach-enode] #8292 0
[mk-app] #6484 = #8290 #8292
[attach-enode] #1003 0
[attach-enode] #8290 0
[attach-enode] #6484 0
[assign] #6484 justification -1: 
[mk-app] #8261 distinct-aux-f!!67 #1004
[mk-app] #8262 unique-value!276
[attach-enode] #8262 0
[mk-app] #8254 = #8261 #8262
[attach-enode] #1004 0
[attach-enode] #8261 0
[attach-enode] #8254 0
[assign] #8254 justification -1: 
[mk-app] #8255 distinct-aux-f!!67 #1005
[mk-app] #8245 unique-value!277
[attach-enode] #8245 0
[mk-app] #8246 = #8255 #8245
[attach-enode] #1005 0
[attach-enode] #8255 0
[attach-enode] #8246 0
[assign] #8246 justification -1: 
[mk-app] #8247 distinct-aux-f!!67 #1006
[mk-app] #8248 unique-value!278
[attach-enode] #8248 0
[mk-app] #8222 = #8247 #8248
[attach-enode] #1006 0
[attach-enode] #8247 0
[attach-enode] #8222 0
[assign] #8222 justification -1: 
[mk-app] #8205 distinct-aux-f!!67 #1007
[mk-app] #8206 unique-value!279
[attach-enode] #8206 0
[mk-app] #8207 = #8205 #8206
[attach-enode] #1007 0
[attach-enode] #8205 0
[attach-enode] #8207 0
[assign] #8207 justification -1: 
[mk-app] #8204 distinct-aux-f!!67 #1008
[mk-app] #8208 unique-value!280
[attach-enode] #8208 0
[mk-app] #8217 = #8204 #8208
[attach-enode] #1008 0
[attach-enode] #8204 0
[attach-enode] #8217 0
[assign] #8217 justification -1: 
[mk-app] #8213 distinct-aux-f!!67 #1009
[mk-app] #8216 unique-value!281
[attach-enode] #8216 0
[mk-app] #8218 = #8213 #8216
[attach-enode] #1009 0
[attach-enode] #8213 0
[attach-enode] #8218 0
[assign] #8218 justification -1: 
[mk-app] #8219 distinct-aux-f!!67 #1010
[mk-app] #8223 unique-value!282
[attach-enode] #8223 0
[mk-app] #8221 = #8219 #8223
[attach-enode] #1010 0
[attach-enode] #8219 0
[attach-enode] #8221 0
[assign] #8221 justification -1: 
[mk-app] #8113 distinct-aux-f!!67 #1011
[mk-app] #8114 unique-value!283
[attach-enode] #8114 0
[mk-app] #8115 = #8113 #8114
[attach-enode] #1011 0
[attach-enode] #8113 0
[attach-enode] #8115 0
[assign] #8115 justification -1: 
[mk-app] #8112 distinct-aux-f!!67 #1012
[mk-app] #8116 unique-value!284
[attach-enode] #8116 0
[mk-app] #8125 = #8112 #8116
[attach-enode] #1012 0
[attach-enode] #8112 0
[attach-enode] #8125 0
[assign] #8125 justification -1: 
[mk-app] #8121 distinct-aux-f!!67 #1013
[mk-app] #8124 unique-value!285
[attach-enode] #8124 0
[mk-app] #8126 = #8121 #8124
[attach-enode] #1013 0
[attach-enode] #8121 0
[attach-enode] #8126 0
[assign] #8126 justification -1: 
[mk-app] #8127 distinct-aux-f!!67 #1014
[mk-app] #8128 unique-value!286
[attach-enode] #8128 0
[mk-app] #8129 = #8127 #8128
[attach-enode] #1014 0
[attach-enode] #8127 0
[attach-enode] #8129 0
[assign] #8129 justification -1: 
[mk-app] #7966 distinct-aux-f!!67 #1015
[mk-app] #7968 unique-value!287
[attach-enode] #7968 0
[mk-app] #7969 = #7966 #7968
[attach-enode] #1015 0
[attach-enode] #7966 0
[attach-enode] #7969 0
[assign] #7969 justification -1: 
[mk-app] #7971 distinct-aux-f!!67 #1016
[mk-app] #7834 unique-value!288
[attach-enode] #7834 0
[mk-app] #7836 = #7971 #7834
[attach-enode] #1016 0
[attach-enode] #7971 0
[attach-enode] #7836 0
[assign] #7836 justification -1: 
[mk-app] #7837 distinct-aux-f!!67 #1017
[mk-app] #7839 unique-value!289
[attach-enode] #7839 0
[mk-app] #7710 = #7837 #7839
[attach-enode] #1017 0
[attach-enode] #7837 0
[attach-enode] #7710 0
[assign] #7710 justification -1: 
[mk-app] #7712 distinct-aux-f!!67 #1018
[mk-app] #7713 unique-value!290
[attach-enode] #7713 0
[mk-app] #7715 = #7712 #7713
[attach-enode] #1018 0
[attach-enode] #7712 0
[attach-enode] #7715 0
[assign] #7715 justification -1: 
[mk-app] #7586 distinct-aux-f!!67 #1019
[mk-app] #7588 unique-value!291
[attach-enode] #7588 0
[mk-app] #7589 = #7586 #7588
[attach-enode] #1019 0
[attach-enode] #7586 0
[attach-enode] #7589 0
[assign] #7589 justification -1: 
[mk-app] #7591 distinct-aux-f!!67 #1020
[mk-app] #7462 unique-value!292
[attach-enode] #7462 0
[mk-app] #7464 = #7591 #7462
[attach-enode] #1020 0
[attach-enode] #7591 0
[attach-enode] #7464 0
[assign] #7464 justification -1: 
[mk-app] #7465 distinct-aux-f!!67 #1021
[mk-app] #7467 unique-value!293
[attach-enode] #7467 0
[mk-app] #7338 = #7465 #7467
[attach-enode] #1021 0
[attach-enode] #7465 0
[attach-enode] #7338 0
[assign] #7338 justification -1: 
[mk-app] #7340 distinct-aux-f!!67 #1022
[mk-app] #7341 unique-value!294
[attach-enode] #7341 0
[mk-app] #7343 = #7340 #7341
[attach-enode] #1022 0
[attach-enode] #7340 0
[attach-enode] #7343 0
[assign] #7343 justification -1: 
[mk-app] #7214 distinct-aux-f!!67 #1023
[mk-app] #7216 unique-value!295
[attach-enode] #7216 0
[mk-app] #7217 = #7214 #7216
[attach-enode] #1023 0
[attach-enode] #7214 0
[attach-enode] #7217 0
[assign] #7217 justification -1: 
[mk-app] #7219 distinct-aux-f!!67 #1024
[mk-app] #7083 unique-value!296
[attach-enode] #7083 0
[mk-app] #7085 = #7219 #7083
[attach-enode] #1024 0
[attach-enode] #7219 0
[attach-enode] #7085 0
[assign] #7085 justification -1: 
[mk-app] #7086 distinct-aux-f!!67 #1025
[mk-app] #7088 unique-value!297
[attach-enode] #7088 0
[mk-app] #6960 = #7086 #7088
[attach-enode] #1025 0
[attach-enode] #7086 0
[attach-enode] #6960 0
[assign] #6960 justification -1: 
[mk-app] #6962 distinct-aux-f!!67 #1026
[mk-app] #6963 unique-value!298
[attach-enode] #6963 0
[mk-app] #6965 = #6962 #6963
[attach-enode] #1026 0
[attach-enode] #6962 0
[attach-enode] #6965 0
[assign] #6965 justification -1: 
[mk-app] #6836 distinct-aux-f!!67 #1027
[mk-app] #6838 unique-value!299
[attach-enode] #6838 0
[mk-app] #6839 = #6836 #6838
[attach-enode] #1027 0
[attach-enode] #6836 0
[attach-enode] #6839 0
[assign] #6839 justification -1: 
[mk-app] #6841 distinct-aux-f!!67 #1028
[mk-app] #6712 unique-value!300
[attach-enode] #6712 0
[mk-app] #6714 = #6841 #6712
[attach-enode] #1028 0
[attach-enode] #6841 0
[attach-enode] #6714 0
[assign] #6714 justification -1: 
[mk-app] #6715 distinct-aux-f!!67 #1029
[mk-app] #6717 unique-value!301
[attach-enode] #6717 0
[mk-app] #6588 = #6715 #6717
[attach-enode] #1029 0
[attach-enode] #6715 0
[attach-enode] #6588 0
[assign] #6588 justification -1: 
[mk-app] #6590 distinct-aux-f!!67 #1030
[mk-app] #6591 unique-value!302
[attach-enode] #6591 0
[mk-app] #6593 = #6590 #6591
[attach-enode] #1030 0
[attach-enode] #6590 0
[attach-enode] #6593 0
[assign] #6593 justification -1: 
[mk-app] #6513 distinct-aux-f!!67 #1031
[mk-app] #6514 unique-value!303
[attach-enode] #6514 0
[mk-app] #6485 = #6513 #6514
[attach-enode] #1031 0
[attach-enode] #6513 0
[attach-enode] #6485 0
[assign] #6485 justification -1: 
[mk-app] #6486 distinct-aux-f!!67 #1032
[mk-app] #6475 unique-value!304
[attach-enode] #6475 0
[mk-app] #6476 = #6486 #6475
[attach-enode] #1032 0
[attach-enode] #6486 0
[attach-enode] #6476 0
[assign] #6476 justification -1: 
[mk-app] #6477 distinct-aux-f!!67 #1033
[mk-app] #6466 unique-value!305
[attach-enode] #6466 0
[mk-app] #6467 = #6477 #6466
[attach-enode] #1033 0
[attach-enode] #6477 0
[attach-enode] #6467 0
[assign] #6467 justification -1: 
[mk-app] #6459 distinct-aux-f!!67 #1034
[mk-app] #6460 unique-value!306
[attach-enode] #6460 0
[mk-app] #6401 = #6459 #6460
[attach-enode] #1034 0
[attach-enode] #6459 0
[attach-enode] #6401 0
[assign] #6401 justification -1: 
[mk-app] #6402 distinct-aux-f!!67 #1035
[mk-app] #6403 unique-value!307
[attach-enode] #6403 0
[mk-app] #11800 = #6402 #6403
[attach-enode] #1035 0
[attach-enode] #6402 0
[attach-enode] #11800 0
[assign] #11800 justification -1: 
[mk-app] #11801 distinct-aux-f!!67 #1036
[mk-app] #11802 unique-value!308
[attach-enode] #11802 0
[mk-app] #11803 = #11801 #11802
[attach-enode] #1036 0
[attach-enode] #11801 0
[attach-enode] #11803 0
[assign] #11803 justification -1: 
[mk-app] #11804 distinct-aux-f!!67 #1037
[mk-app] #11810 unique-value!309
[attach-enode] #11810 0
[mk-app] #11805 = #11804 #11810
[attach-enode] #1037 0
[attach-enode] #11804 0
[attach-enode] #11805 0
[assign] #11805 justification -1: 
[mk-app] #6407 distinct-aux-f!!67 #1038
[mk-app] #6408 unique-value!310
[attach-enode] #6408 0
[mk-app] #6409 = #6407 #6408
[attach-enode] #1038 0
[attach-enode] #6407 0
[attach-enode] #6409 0
[assign] #6409 justification -1: 
[mk-app] #11806 distinct-aux-f!!67 #1039
[mk-app] #11807 unique-value!311
[attach-enode] #11807 0
[mk-app] #11808 = #11806 #11807
[attach-enode] #1039 0
[attach-enode] #11806 0
[attach-enode] #11808 0
[assign] #11808 justification -1: 
[mk-app] #11814 distinct-aux-f!!67 #1040
[mk-app] #11815 unique-value!312
[attach-enode] #11815 0
[mk-app] #11816 = #11814 #11815
[attach-enode] #1040 0
[attach-enode] #11814 0
[attach-enode] #11816 0
[assign] #11816 justification -1: 
[mk-app] #6354 distinct-aux-f!!67 #1041
[mk-app] #6357 unique-value!313
[attach-enode] #6357 0
[mk-app] #6356 = #6354 #6357
[attach-enode] #1041 0
[attach-enode] #6354 0
[attach-enode] #6356 0
[assign] #6356 justification -1: 
[mk-app] #6323 distinct-aux-f!!67 #1042
[mk-app] #6324 unique-value!314
[attach-enode] #6324 0
[mk-app] #6325 = #6323 #6324
[attach-enode] #1042 0
[attach-enode] #6323 0
[attach-enode] #6325 0
[assign] #6325 justification -1: 
[mk-app] #6308 distinct-aux-f!!67 #1043
[mk-app] #6309 unique-value!315
[attach-enode] #6309 0
[mk-app] #6277 = #6308 #6309
[attach-enode] #1043 0
[attach-enode] #6308 0
[attach-enode] #6277 0
[assign] #6277 justification -1: 
[mk-app] #6278 distinct-aux-f!!67 #1044
[mk-app] #6248 unique-value!316
[attach-enode] #6248 0
[mk-app] #6249 = #6278 #6248
[attach-enode] #1044 0
[attach-enode] #6278 0
[attach-enode] #6249 0
[assign] #6249 justification -1: 
[mk-app] #6250 distinct-aux-f!!67 #1045
[mk-app] #6124 unique-value!317
[attach-enode] #6124 0
[mk-app] #6208 = #6250 #6124
[attach-enode] #1045 0
[attach-enode] #6250 0
[attach-enode] #6208 0
[assign] #6208 justification -1: 
[mk-app] #6211 distinct-aux-f!!67 #1046
[mk-app] #6212 unique-value!318
[attach-enode] #6212 0
[mk-app] #6214 = #6211 #6212
[attach-enode] #1046 0
[attach-enode] #6211 0
[attach-enode] #6214 0
[assign] #6214 justification -1: 
[mk-app] #6213 distinct-aux-f!!67 #1047
[mk-app] #6206 unique-value!319
[attach-enode] #6206 0
[mk-app] #6036 = #6213 #6206
[attach-enode] #1047 0
[attach-enode] #6213 0
[attach-enode] #6036 0
[assign] #6036 justification -1: 
[mk-app] #6190 distinct-aux-f!!67 #1048
[mk-app] #6189 unique-value!320
[attach-enode] #6189 0
[mk-app] #6192 = #6190 #6189
[attach-enode] #1048 0
[attach-enode] #6190 0
[attach-enode] #6192 0
[assign] #6192 justification -1: 
[mk-app] #6088 distinct-aux-f!!67 #1049
[mk-app] #6118 unique-value!321
[attach-enode] #6118 0
[mk-app] #6176 = #6088 #6118
[attach-enode] #1049 0
[attach-enode] #6088 0
[attach-enode] #6176 0
[assign] #6176 justification -1: 
[mk-app] #6179 distinct-aux-f!!67 #1050
[mk-app] #6180 unique-value!322
[attach-enode] #6180 0
[mk-app] #6178 = #6179 #6180
[attach-enode] #1050 0
[attach-enode] #6179 0
[attach-enode] #6178 0
[assign] #6178 justification -1: 
[mk-app] #6175 distinct-aux-f!!67 #1051
[mk-app] #6160 unique-value!323
[attach-enode] #6160 0
[mk-app] #6153 = #6175 #6160
[attach-enode] #1051 0
[attach-enode] #6175 0
[attach-enode] #6153 0
[assign] #6153 justification -1: 
[mk-app] #6156 distinct-aux-f!!67 #1052
[mk-app] #6157 unique-value!324
[attach-enode] #6157 0
[mk-app] #6159 = #6156 #6157
[attach-enode] #1052 0
[attach-enode] #6156 0
[attach-enode] #6159 0
[assign] #6159 justification -1: 
[mk-app] #6158 distinct-aux-f!!67 #1053
[mk-app] #11768 unique-value!325
[attach-enode] #11768 0
[mk-app] #11774 = #6158 #11768
[attach-enode] #1053 0
[attach-enode] #6158 0
[attach-enode] #11774 0
[assign] #11774 justification -1: 
[mk-app] #11778 distinct-aux-f!!67 #1054
[mk-app] #11779 unique-value!326
[attach-enode] #11779 0
[mk-app] #11780 = #11778 #11779
[attach-enode] #1054 0
[attach-enode] #11778 0
[attach-enode] #11780 0
[assign] #11780 justification -1: 
[mk-app] #11781 distinct-aux-f!!67 #1055
[mk-app] #11782 unique-value!327
[attach-enode] #11782 0
[mk-app] #11783 = #11781 #11782
[attach-enode] #1055 0
[attach-enode] #11781 0
[attach-enode] #11783 0
[assign] #11783 justification -1: 
[mk-app] #11784 distinct-aux-f!!67 #1056
[mk-app] #11785 unique-value!328
[attach-enode] #11785 0
[mk-app] #11786 = #11784 #11785
[attach-enode] #1056 0
[attach-enode] #11784 0
[attach-enode] #11786 0
[assign] #11786 justification -1: 
[mk-app] #6121 distinct-aux-f!!67 #1057
[mk-app] #6122 unique-value!329
[attach-enode] #6122 0
[mk-app] #6125 = #6121 #6122
[attach-enode] #1057 0
[attach-enode] #6121 0
[attach-enode] #6125 0
[assign] #6125 justification -1: 
[mk-app] #6123 distinct-aux-f!!67 #1058
[mk-app] #6116 unique-value!330
[attach-enode] #6116 0
[mk-app] #3393 = #6123 #6116
[attach-enode] #1058 0
[attach-enode] #6123 0
[attach-enode] #3393 0
[assign] #3393 justification -1: 
[mk-app] #6097 distinct-aux-f!!67 #1059
[mk-app] #6098 unique-value!331
[attach-enode] #6098 0
[mk-app] #6089 = #6097 #6098
[attach-enode] #1059 0
[attach-enode] #6097 0
[attach-enode] #6089 0
[assign] #6089 justification -1: 
[mk-app] #6090 distinct-aux-f!!67 #1060
[mk-app] #6092 unique-value!332
[attach-enode] #6092 0
[mk-app] #6074 = #6090 #6092
[attach-enode] #1060 0
[attach-enode] #6090 0
[attach-enode] #6074 0
[assign] #6074 justification -1: 
[mk-app] #6075 distinct-aux-f!!67 #1061
[mk-app] #6068 unique-value!333
[attach-enode] #6068 0
[mk-app] #6069 = #6075 #6068
[attach-enode] #1061 0
[attach-enode] #6075 0
[attach-enode] #6069 0
[assign] #6069 justification -1: 
[mk-app] #6070 distinct-aux-f!!67 #1062
[mk-app] #6056 unique-value!334
[attach-enode] #6056 0
[mk-app] #6055 = #6070 #6056
[attach-enode] #1062 0
[attach-enode] #6070 0
[attach-enode] #6055 0
[assign] #6055 justification -1: 
[mk-app] #6058 distinct-aux-f!!67 #1063
[mk-app] #6045 unique-value!335
[attach-enode] #6045 0
[mk-app] #6046 = #6058 #6045
[attach-enode] #1063 0
[attach-enode] #6058 0
[attach-enode] #6046 0
[assign] #6046 justification -1: 
[mk-app] #6037 distinct-aux-f!!67 #1064
[mk-app] #6038 unique-value!336
[attach-enode] #6038 0
[mk-app] #6040 = #6037 #6038
[attach-enode] #1064 0
[attach-enode] #6037 0
[attach-enode] #6040 0
[assign] #6040 justification -1: 
[mk-app] #5927 distinct-aux-f!!67 #1065
[mk-app] #5993 unique-value!337
[attach-enode] #5993 0
[mk-app] #5996 = #5927 #5993
[attach-enode] #1065 0
[attach-enode] #5927 0
[attach-enode] #5996 0
[assign] #5996 justification -1: 
[mk-app] #5997 distinct-aux-f!!67 #1066
[mk-app] #5999 unique-value!338
[attach-enode] #5999 0
[mk-app] #5998 = #5997 #5999
[attach-enode] #1066 0
[attach-enode] #5997 0
[attach-enode] #5998 0
[assign] #5998 justification -1: 
[mk-app] #5991 distinct-aux-f!!67 #1067
[mk-app] #5943 unique-value!339
[attach-enode] #5943 0
[mk-app] #5946 = #5991 #5943
[attach-enode] #1067 0
[attach-enode] #5991 0
[attach-enode] #5946 0
[assign] #5946 justification -1: 
[mk-app] #5947 distinct-aux-f!!67 #1068
[mk-app] #5964 unique-value!340
[attach-enode] #5964 0
[mk-app] #5963 = #5947 #5964
[attach-enode] #1068 0
[attach-enode] #5947 0
[attach-enode] #5963 0
[assign] #5963 justification -1: 
[mk-app] #5961 distinct-aux-f!!67 #1069
[mk-app] #5948 unique-value!341
[attach-enode] #5948 0
[mk-app] #5949 = #5961 #5948
[attach-enode] #1069 0
[attach-enode] #5961 0
[attach-enode] #5949 0
[assign] #5949 justification -1: 
[mk-app] #5941 distinct-aux-f!!67 #1070
[mk-app] #5928 unique-value!342
[attach-enode] #5928 0
[mk-app] #5929 = #5941 #5928
[attach-enode] #1070 0
[attach-enode] #5941 0
[attach-enode] #5929 0
[assign] #5929 justification -1: 
[mk-app] #5895 distinct-aux-f!!67 #1071
[mk-app] #5916 unique-value!343
[attach-enode] #5916 0
[mk-app] #5917 = #5895 #5916
[attach-enode] #1071 0
[attach-enode] #5895 0
[attach-enode] #5917 0
[assign] #5917 justification -1: 
[mk-app] #5918 distinct-aux-f!!67 #1072
[mk-app] #5919 unique-value!344
[attach-enode] #5919 0
[mk-app] #5920 = #5918 #5919
[attach-enode] #1072 0
[attach-enode] #5918 0
[attach-enode] #5920 0
[assign] #5920 justification -1: 
[mk-app] #5912 distinct-aux-f!!67 #1073
[mk-app] #5896 unique-value!345
[attach-enode] #5896 0
[mk-app] #5897 = #5912 #5896
[attach-enode] #1073 0
[attach-enode] #5912 0
[attach-enode] #5897 0
[assign] #5897 justification -1: 
[mk-app] #5884 distinct-aux-f!!67 #1074
[mk-app] #5876 unique-value!346
[attach-enode] #5876 0
[mk-app] #5879 = #5884 #5876
[attach-enode] #1074 0
[attach-enode] #5884 0
[attach-enode] #5879 0
[assign] #5879 justification -1: 
[mk-app] #5880 distinct-aux-f!!67 #1075
[mk-app] #5882 unique-value!347
[attach-enode] #5882 0
[mk-app] #5881 = #5880 #5882
[attach-enode] #1075 0
[attach-enode] #5880 0
[attach-enode] #5881 0
[assign] #5881 justification -1: 
[mk-app] #5873 distinct-aux-f!!67 #1076
[mk-app] #11737 unique-value!348
[attach-enode] #11737 0
[mk-app] #11743 = #5873 #11737
[attach-enode] #1076 0
[attach-enode] #5873 0
[attach-enode] #11743 0
[assign] #11743 justification -1: 
[mk-app] #11747 distinct-aux-f!!67 #1077
[mk-app] #11748 unique-value!349
[attach-enode] #11748 0
[mk-app] #11749 = #11747 #11748
[attach-enode] #1077 0
[attach-enode] #11747 0
[attach-enode] #11749 0
[assign] #11749 justification -1: 
[mk-app] #11750 distinct-aux-f!!67 #1078
[mk-app] #11752 unique-value!350
[attach-enode] #11752 0
[mk-app] #11753 = #11750 #11752
[attach-enode] #1078 0
[attach-enode] #11750 0
[attach-enode] #11753 0
[assign] #11753 justification -1: 
[mk-app] #11754 distinct-aux-f!!67 #1079
[mk-app] #11755 unique-value!351
[attach-enode] #11755 0
[mk-app] #11751 = #11754 #11755
[attach-enode] #1079 0
[attach-enode] #11754 0
[attach-enode] #11751 0
[assign] #11751 justification -1: 
[mk-app] #5822 distinct-aux-f!!67 #1080
[mk-app] #5823 unique-value!352
[attach-enode] #5823 0
[mk-app] #5814 = #5822 #5823
[attach-enode] #1080 0
[attach-enode] #5822 0
[attach-enode] #5814 0
[assign] #5814 justification -1: 
[mk-app] #5815 distinct-aux-f!!67 #1081
[mk-app] #5816 unique-value!353
[attach-enode] #5816 0
[mk-app] #5740 = #5815 #5816
[attach-enode] #1081 0
[attach-enode] #5815 0
[attach-enode] #5740 0
[assign] #5740 justification -1: 
[mk-app] #5737 distinct-aux-f!!67 #1082
[mk-app] #5738 unique-value!354
[attach-enode] #5738 0
[mk-app] #5741 = #5737 #5738
[attach-enode] #1082 0
[attach-enode] #5737 0
[attach-enode] #5741 0
[assign] #5741 justification -1: 
[mk-app] #5739 distinct-aux-f!!67 #1083
[mk-app] #5743 unique-value!355
[attach-enode] #5743 0
[mk-app] #5711 = #5739 #5743
[attach-enode] #1083 0
[attach-enode] #5739 0
[attach-enode] #5711 0
[assign] #5711 justification -1: 
[mk-app] #5708 distinct-aux-f!!67 #1084
[mk-app] #5709 unique-value!356
[attach-enode] #5709 0
[mk-app] #5712 = #5708 #5709
[attach-enode] #1084 0
[attach-enode] #5708 0
[attach-enode] #5712 0
[assign] #5712 justification -1: 
[mk-app] #5710 distinct-aux-f!!67 #1085
[mk-app] #5714 unique-value!357
[attach-enode] #5714 0
[mk-app] #4630 = #5710 #5714
[attach-enode] #1085 0
[attach-enode] #5710 0
[attach-enode] #4630 0
[assign] #4630 justification -1: 
[mk-app] #5690 distinct-aux-f!!67 #1086
[mk-app] #5691 unique-value!358
[attach-enode] #5691 0
[mk-app] #5686 = #5690 #5691
[attach-enode] #1086 0
[attach-enode] #5690 0
[attach-enode] #5686 0
[assign] #5686 justification -1: 
[mk-app] #5674 distinct-aux-f!!67 #1087
[mk-app] #5680 unique-value!359
[attach-enode] #5680 0
[mk-app] #5683 = #5674 #5680
[attach-enode] #1087 0
[attach-enode] #5674 0
[attach-enode] #5683 0
[assign] #5683 justification -1: 
[mk-app] #5684 distinct-aux-f!!67 #1088
[mk-app] #5687 unique-value!360
[attach-enode] #5687 0
[mk-app] #5685 = #5684 #5687
[attach-enode] #1088 0
[attach-enode] #5684 0
[attach-enode] #5685 0
[assign] #5685 justification -1: 
[mk-app] #5678 distinct-aux-f!!67 #1089
[mk-app] #5620 unique-value!361
[attach-enode] #5620 0
[mk-app] #5614 = #5678 #5620
[attach-enode] #1089 0
[attach-enode] #5678 0
[attach-enode] #5614 0
[assign] #5614 justification -1: 
[mk-app] #5617 distinct-aux-f!!67 #1090
[mk-app] #5618 unique-value!362
[attach-enode] #5618 0
[mk-app] #5621 = #5617 #5618
[attach-enode] #1090 0
[attach-enode] #5617 0
[attach-enode] #5621 0
[assign] #5621 justification -1: 
[mk-app] #5619 distinct-aux-f!!67 #1091
[mk-app] #5612 unique-value!363
[attach-enode] #5612 0
[mk-app] #5286 = #5619 #5612
[attach-enode] #1091 0
[attach-enode] #5619 0
[attach-enode] #5286 0
[assign] #5286 justification -1: 
[mk-app] #5575 distinct-aux-f!!67 #1092
[mk-app] #5576 unique-value!364
[attach-enode] #5576 0
[mk-app] #5578 = #5575 #5576
[attach-enode] #1092 0
[attach-enode] #5575 0
[attach-enode] #5578 0
[assign] #5578 justification -1: 
[mk-app] #5577 distinct-aux-f!!67 #1093
[mk-app] #5580 unique-value!365
[attach-enode] #5580 0
[mk-app] #5542 = #5577 #5580
[attach-enode] #1093 0
[attach-enode] #5577 0
[attach-enode] #5542 0
[assign] #5542 justification -1: 
[mk-app] #5432 distinct-aux-f!!67 #1094
[mk-app] #5537 unique-value!366
[attach-enode] #5537 0
[mk-app] #5538 = #5432 #5537
[attach-enode] #1094 0
[attach-enode] #5432 0
[attach-enode] #5538 0
[assign] #5538 justification -1: 
[mk-app] #5562 distinct-aux-f!!67 #1095
[mk-app] #5561 unique-value!367
[attach-enode] #5561 0
[mk-app] #5559 = #5562 #5561
[attach-enode] #1095 0
[attach-enode] #5562 0
[attach-enode] #5559 0
[assign] #5559 justification -1: 
[mk-app] #11704 distinct-aux-f!!67 #1096
[mk-app] #11714 unique-value!368
[attach-enode] #11714 0
[mk-app] #11715 = #11704 #11714
[attach-enode] #1096 0
[attach-enode] #11704 0
[attach-enode] #11715 0
[assign] #11715 justification -1: 
[mk-app] #11716 distinct-aux-f!!67 #1097
[mk-app] #11717 unique-value!369
[attach-enode] #11717 0
[mk-app] #11718 = #11716 #11717
[attach-enode] #1097 0
[attach-enode] #11716 0
[attach-enode] #11718 0
[assign] #11718 justification -1: 
[mk-app] #11720 distinct-aux-f!!67 #1098
[mk-app] #11721 unique-value!370
[attach-enode] #11721 0
[mk-app] #11722 = #11720 #11721
[attach-enode] #1098 0
[attach-enode] #11720 0
[attach-enode] #11722 0
[assign] #11722 justification -1: 
[mk-app] #11723 distinct-aux-f!!67 #1099
[mk-app] #11710 unique-value!371
[attach-enode] #11710 0
[mk-app] #5540 = #11723 #11710
[attach-enode] #1099 0
[attach-enode] #11723 0
[attach-enode] #5540 0
[assign] #5540 justification -1: 
[mk-app] #5539 distinct-aux-f!!67 #1100
[mk-app] #5535 unique-value!372
[attach-enode] #5535 0
[mk-app] #11673 = #5539 #5535
[attach-enode] #1100 0
[attach-enode] #5539 0
[attach-enode] #11673 0
[assign] #11673 justification -1: 
[mk-app] #11683 distinct-aux-f!!67 #1101
[mk-app] #11684 unique-value!373
[attach-enode] #11684 0
[mk-app] #11685 = #11683 #11684
[attach-enode] #1101 0
[attach-enode] #11683 0
[attach-enode] #11685 0
[assign] #11685 justification -1: 
[mk-app] #11686 distinct-aux-f!!67 #1102
[mk-app] #11687 unique-value!374
[attach-enode] #11687 0
[mk-app] #11689 = #11686 #11687
[attach-enode] #1102 0
[attach-enode] #11686 0
[attach-enode] #11689 0
[assign] #11689 justification -1: 
[mk-app] #11690 distinct-aux-f!!67 #1103
[mk-app] #11691 unique-value!375
[attach-enode] #11691 0
[mk-app] #11692 = #11690 #11691
[attach-enode] #1103 0
[attach-enode] #11690 0
[attach-enode] #11692 0
[assign] #11692 justification -1: 
[mk-app] #11679 distinct-aux-f!!67 #1104
[mk-app] #5510 unique-value!376
[attach-enode] #5510 0
[mk-app] #5508 = #11679 #5510
[attach-enode] #1104 0
[attach-enode] #11679 0
[attach-enode] #5508 0
[assign] #5508 justification -1: 
[mk-app] #5511 distinct-aux-f!!67 #1105
[mk-app] #5509 unique-value!377
[attach-enode] #5509 0
[mk-app] #5513 = #5511 #5509
[attach-enode] #1105 0
[attach-enode] #5511 0
[attach-enode] #5513 0
[assign] #5513 justification -1: 
[mk-app] #5460 distinct-aux-f!!67 #1106
[mk-app] #5449 unique-value!378
[attach-enode] #5449 0
[mk-app] #5487 = #5460 #5449
[attach-enode] #1106 0
[attach-enode] #5460 0
[attach-enode] #5487 0
[assign] #5487 justification -1: 
[mk-app] #5488 distinct-aux-f!!67 #1107
[mk-app] #5490 unique-value!379
[attach-enode] #5490 0
[mk-app] #5489 = #5488 #5490
[attach-enode] #1107 0
[attach-enode] #5488 0
[attach-enode] #5489 0
[assign] #5489 justification -1: 
[mk-app] #5486 distinct-aux-f!!67 #1108
[mk-app] #5473 unique-value!380
[attach-enode] #5473 0
[mk-app] #5472 = #5486 #5473
[attach-enode] #1108 0
[attach-enode] #5486 0
[attach-enode] #5472 0
[assign] #5472 justification -1: 
[mk-app] #5475 distinct-aux-f!!67 #1109
[mk-app] #5461 unique-value!381
[attach-enode] #5461 0
[mk-app] #5462 = #5475 #5461
[attach-enode] #1109 0
[attach-enode] #5475 0
[attach-enode] #5462 0
[assign] #5462 justification -1: 
[mk-app] #5450 distinct-aux-f!!67 #1110
[mk-app] #5452 unique-value!382
[attach-enode] #5452 0
[mk-app] #5453 = #5450 #5452
[attach-enode] #1110 0
[attach-enode] #5450 0
[attach-enode] #5453 0
[assign] #5453 justification -1: 
[mk-app] #5454 distinct-aux-f!!67 #1111
[mk-app] #5416 unique-value!383
[attach-enode] #5416 0
[mk-app] #5433 = #5454 #5416
[attach-enode] #1111 0
[attach-enode] #5454 0
[attach-enode] #5433 0
[assign] #5433 justification -1: 
[mk-app] #5434 distinct-aux-f!!67 #1112
[mk-app] #5436 unique-value!384
[attach-enode] #5436 0
[mk-app] #5435 = #5434 #5436
[attach-enode] #1112 0
[attach-enode] #5434 0
[attach-enode] #5435 0
[assign] #5435 justification -1: 
[mk-app] #5430 distinct-aux-f!!67 #1113
[mk-app] #5414 unique-value!385
[attach-enode] #5414 0
[mk-app] #5417 = #5430 #5414
[attach-enode] #1113 0
[attach-enode] #5430 0
[attach-enode] #5417 0
[assign] #5417 justification -1: 
[mk-app] #5415 distinct-aux-f!!67 #1114
[mk-app] #5419 unique-value!386
[attach-enode] #5419 0
[mk-app] #5385 = #5415 #5419
[attach-enode] #1114 0
[attach-enode] #5415 0
[attach-enode] #5385 0
[assign] #5385 justification -1: 
[mk-app] #5399 distinct-aux-f!!67 #1115
[mk-app] #5398 unique-value!387
[attach-enode] #5398 0
[mk-app] #5401 = #5399 #5398
[attach-enode] #1115 0
[attach-enode] #5399 0
[attach-enode] #5401 0
[assign] #5401 justification -1: 
[mk-app] #5386 distinct-aux-f!!67 #1116
[mk-app] #5387 unique-value!388
[attach-enode] #5387 0
[mk-app] #5377 = #5386 #5387
[attach-enode] #1116 0
[attach-enode] #5386 0
[attach-enode] #5377 0
[assign] #5377 justification -1: 
[mk-app] #5374 distinct-aux-f!!67 #1117
[mk-app] #5375 unique-value!389
[attach-enode] #5375 0
[mk-app] #5378 = #5374 #5375
[attach-enode] #1117 0
[attach-enode] #5374 0
[attach-enode] #5378 0
[assign] #5378 justification -1: 
[mk-app] #5376 distinct-aux-f!!67 #1118
[mk-app] #5369 unique-value!390
[attach-enode] #5369 0
[mk-app] #5336 = #5376 #5369
[attach-enode] #1118 0
[attach-enode] #5376 0
[attach-enode] #5336 0
[assign] #5336 justification -1: 
[mk-app] #5349 distinct-aux-f!!67 #1119
[mk-app] #5348 unique-value!391
[attach-enode] #5348 0
[mk-app] #5351 = #5349 #5348
[attach-enode] #1119 0
[attach-enode] #5349 0
[attach-enode] #5351 0
[assign] #5351 justification -1: 
[mk-app] #5337 distinct-aux-f!!67 #1120
[mk-app] #5338 unique-value!392
[attach-enode] #5338 0
[mk-app] #5307 = #5337 #5338
[attach-enode] #1120 0
[attach-enode] #5337 0
[attach-enode] #5307 0
[assign] #5307 justification -1: 
[mk-app] #5308 distinct-aux-f!!67 #1121
[mk-app] #5309 unique-value!393
[attach-enode] #5309 0
[mk-app] #5311 = #5308 #5309
[attach-enode] #1121 0
[attach-enode] #5308 0
[attach-enode] #5311 0
[assign] #5311 justification -1: 
[mk-app] #5310 distinct-aux-f!!67 #1122
[mk-app] #5303 unique-value!394
[attach-enode] #5303 0
[mk-app] #5287 = #5310 #5303
[attach-enode] #1122 0
[attach-enode] #5310 0
[attach-enode] #5287 0
[assign] #5287 justification -1: 
[mk-app] #5288 distinct-aux-f!!67 #1123
[mk-app] #5272 unique-value!395
[attach-enode] #5272 0
[mk-app] #5274 = #5288 #5272
[attach-enode] #1123 0
[attach-enode] #5288 0
[attach-enode] #5274 0
[assign] #5274 justification -1: 
[mk-app] #5275 distinct-aux-f!!67 #1124
[mk-app] #5276 unique-value!396
[attach-enode] #5276 0
[mk-app] #5213 = #5275 #5276
[attach-enode] #1124 0
[attach-enode] #5275 0
[attach-enode] #5213 0
[assign] #5213 justification -1: 
[mk-app] #5200 distinct-aux-f!!67 #1125
[mk-app] #5251 unique-value!397
[attach-enode] #5251 0
[mk-app] #5252 = #5200 #5251
[attach-enode] #1125 0
[attach-enode] #5200 0
[attach-enode] #5252 0
[assign] #5252 justification -1: 
[mk-app] #5254 distinct-aux-f!!67 #1126
[mk-app] #5253 unique-value!398
[attach-enode] #5253 0
[mk-app] #5250 = #5254 #5253
[attach-enode] #1126 0
[attach-enode] #5254 0
[attach-enode] #5250 0
[assign] #5250 justification -1: 
[mk-app] #5238 distinct-aux-f!!67 #1127
[mk-app] #5239 unique-value!399
[attach-enode] #5239 0
[mk-app] #5203 = #5238 #5239
[attach-enode] #1127 0
[attach-enode] #5238 0
[attach-enode] #5203 0
[assign] #5203 justification -1: 
[mk-app] #5225 distinct-aux-f!!67 #1128
[mk-app] #5226 unique-value!400
[attach-enode] #5226 0
[mk-app] #5227 = #5225 #5226
[attach-enode] #1128 0
[attach-enode] #5225 0
[attach-enode] #5227 0
[assign] #5227 justification -1: 
[mk-app] #5214 distinct-aux-f!!67 #1129
[mk-app] #5215 unique-value!401
[attach-enode] #5215 0
[mk-app] #5205 = #5214 #5215
[attach-enode] #1129 0
[attach-enode] #5214 0
[attach-enode] #5205 0
[assign] #5205 justification -1: 
[mk-app] #5206 distinct-aux-f!!67 #1130
[mk-app] #5207 unique-value!402
[attach-enode] #5207 0
[mk-app] #5175 = #5206 #5207
[attach-enode] #1130 0
[attach-enode] #5206 0
[attach-enode] #5175 0
[assign] #5175 justification -1: 
[mk-app] #5176 distinct-aux-f!!67 #1131
[mk-app] #5168 unique-value!403
[attach-enode] #5168 0
[mk-app] #5169 = #5176 #5168
[attach-enode] #1131 0
[attach-enode] #5176 0
[attach-enode] #5169 0
[assign] #5169 justification -1: 
[mk-app] #5113 distinct-aux-f!!67 #1132
[mk-app] #5122 unique-value!404
[attach-enode] #5122 0
[mk-app] #5123 = #5113 #5122
[attach-enode] #1132 0
[attach-enode] #5113 0
[attach-enode] #5123 0
[assign] #5123 justification -1: 
[mk-app] #5114 distinct-aux-f!!67 #1133
[mk-app] #5115 unique-value!405
[attach-enode] #5115 0
[mk-app] #5104 = #5114 #5115
[attach-enode] #1133 0
[attach-enode] #5114 0
[attach-enode] #5104 0
[assign] #5104 justification -1: 
[mk-app] #5105 distinct-aux-f!!67 #1134
[mk-app] #5097 unique-value!406
[attach-enode] #5097 0
[mk-app] #5098 = #5105 #5097
[attach-enode] #1134 0
[attach-enode] #5105 0
[attach-enode] #5098 0
[assign] #5098 justification -1: 
[mk-app] #5081 distinct-aux-f!!67 #1135
[mk-app] #5090 unique-value!407
[attach-enode] #5090 0
[mk-app] #5091 = #5081 #5090
[attach-enode] #1135 0
[attach-enode] #5081 0
[attach-enode] #5091 0
[assign] #5091 justification -1: 
[mk-app] #5082 distinct-aux-f!!67 #1136
[mk-app] #5083 unique-value!408
[attach-enode] #5083 0
[mk-app] #5029 = #5082 #5083
[attach-enode] #1136 0
[attach-enode] #5082 0
[attach-enode] #5029 0
[assign] #5029 justification -1: 
[mk-app] #5030 distinct-aux-f!!67 #1137
[mk-app] #5022 unique-value!409
[attach-enode] #5022 0
[mk-app] #5023 = #5030 #5022
[attach-enode] #1137 0
[attach-enode] #5030 0
[attach-enode] #5023 0
[assign] #5023 justification -1: 
[mk-app] #5015 distinct-aux-f!!67 #1138
[mk-app] #5016 unique-value!410
[attach-enode] #5016 0
[mk-app] #5008 = #5015 #5016
[attach-enode] #1138 0
[attach-enode] #5015 0
[attach-enode] #5008 0
[assign] #5008 justification -1: 
[mk-app] #5009 distinct-aux-f!!67 #1139
[mk-app] #4998 unique-value!411
[attach-enode] #4998 0
[mk-app] #4999 = #5009 #4998
[attach-enode] #1139 0
[attach-enode] #5009 0
[attach-enode] #4999 0
[assign] #4999 justification -1: 
[mk-app] #4991 distinct-aux-f!!67 #1140
[mk-app] #4992 unique-value!412
[attach-enode] #4992 0
[mk-app] #4981 = #4991 #4992
[attach-enode] #1140 0
[attach-enode] #4991 0
[attach-enode] #4981 0
[assign] #4981 justification -1: 
[mk-app] #4982 distinct-aux-f!!67 #1141
[mk-app] #4974 unique-value!413
[attach-enode] #4974 0
[mk-app] #4975 = #4982 #4974
[attach-enode] #1141 0
[attach-enode] #4982 0
[attach-enode] #4975 0
[assign] #4975 justification -1: 
[mk-app] #4967 distinct-aux-f!!67 #1142
[mk-app] #4968 unique-value!414
[attach-enode] #4968 0
[mk-app] #4960 = #4967 #4968
[attach-enode] #1142 0
[attach-enode] #4967 0
[attach-enode] #4960 0
[assign] #4960 justification -1: 
[mk-app] #4961 distinct-aux-f!!67 #1143
[mk-app] #4953 unique-value!415
[attach-enode] #4953 0
[mk-app] #4954 = #4961 #4953
[attach-enode] #1143 0
[attach-enode] #4961 0
[attach-enode] #4954 0
[assign] #4954 justification -1: 
[mk-app] #4946 distinct-aux-f!!67 #1144
[mk-app] #4947 unique-value!416
[attach-enode] #4947 0
[mk-app] #4939 = #4946 #4947
[attach-enode] #1144 0
[attach-enode] #4946 0
[attach-enode] #4939 0
[assign] #4939 justification -1: 
[mk-app] #4940 distinct-aux-f!!67 #1145
[mk-app] #4931 unique-value!417
[attach-enode] #4931 0
[mk-app] #4932 = #4940 #4931
[attach-enode] #1145 0
[attach-enode] #4940 0
[attach-enode] #4932 0
[assign] #4932 justification -1: 
[mk-app] #4924 distinct-aux-f!!67 #1146
[mk-app] #4925 unique-value!418
[attach-enode] #4925 0
[mk-app] #4917 = #4924 #4925
[attach-enode] #1146 0
[attach-enode] #4924 0
[attach-enode] #4917 0
[assign] #4917 justification -1: 
[mk-app] #4918 distinct-aux-f!!67 #1147
[mk-app] #4910 unique-value!419
[attach-enode] #4910 0
[mk-app] #4911 = #4918 #4910
[attach-enode] #1147 0
[attach-enode] #4918 0
[attach-enode] #4911 0
[assign] #4911 justification -1: 
[mk-app] #4903 distinct-aux-f!!67 #1148
[mk-app] #4904 unique-value!420
[attach-enode] #4904 0
[mk-app] #4895 = #4903 #4904
[attach-enode] #1148 0
[attach-enode] #4903 0
[attach-enode] #4895 0
[assign] #4895 justification -1: 
[mk-app] #4896 distinct-aux-f!!67 #1149
[mk-app] #4888 unique-value!421
[attach-enode] #4888 0
[mk-app] #4889 = #4896 #4888
[attach-enode] #1149 0
[attach-enode] #4896 0
[attach-enode] #4889 0
[assign] #4889 justification -1: 
[mk-app] #4881 distinct-aux-f!!67 #1150
[mk-app] #4882 unique-value!422
[attach-enode] #4882 0
[mk-app] #4874 = #4881 #4882
[attach-enode] #1150 0
[attach-enode] #4881 0
[attach-enode] #4874 0
[assign] #4874 justification -1: 
[mk-app] #4875 distinct-aux-f!!67 #1151
[mk-app] #4836 unique-value!423
[attach-enode] #4836 0
[mk-app] #4837 = #4875 #4836
[attach-enode] #1151 0
[attach-enode] #4875 0
[attach-enode] #4837 0
[assign] #4837 justification -1: 
[mk-app] #4828 distinct-aux-f!!67 #1152
[mk-app] #4829 unique-value!424
[attach-enode] #4829 0
[mk-app] #4821 = #4828 #4829
[attach-enode] #1152 0
[attach-enode] #4828 0
[attach-enode] #4821 0
[assign] #4821 justification -1: 
[mk-app] #4822 distinct-aux-f!!67 #1153
[mk-app] #4813 unique-value!425
[attach-enode] #4813 0
[mk-app] #4814 = #4822 #4813
[attach-enode] #1153 0
[attach-enode] #4822 0
[attach-enode] #4814 0
[assign] #4814 justification -1: 
[mk-app] #4805 distinct-aux-f!!67 #1154
[mk-app] #4806 unique-value!426
[attach-enode] #4806 0
[mk-app] #4798 = #4805 #4806
[attach-enode] #1154 0
[attach-enode] #4805 0
[attach-enode] #4798 0
[assign] #4798 justification -1: 
[mk-app] #4799 distinct-aux-f!!67 #1155
[mk-app] #4791 unique-value!427
[attach-enode] #4791 0
[mk-app] #4792 = #4799 #4791
[attach-enode] #1155 0
[attach-enode] #4799 0
[attach-enode] #4792 0
[assign] #4792 justification -1: 
[mk-app] #4784 distinct-aux-f!!67 #1156
[mk-app] #4785 unique-value!428
[attach-enode] #4785 0
[mk-app] #4777 = #4784 #4785
[attach-enode] #1156 0
[attach-enode] #4784 0
[attach-enode] #4777 0
[assign] #4777 justification -1: 
[mk-app] #4778 distinct-aux-f!!67 #1157
[mk-app] #4770 unique-value!429
[attach-enode] #4770 0
[mk-app] #4771 = #4778 #4770
[attach-enode] #1157 0
[attach-enode] #4778 0
[attach-enode] #4771 0
[assign] #4771 justification -1: 
[mk-app] #4763 distinct-aux-f!!67 #1158
[mk-app] #4764 unique-value!430
[attach-enode] #4764 0
[mk-app] #4756 = #4763 #4764
[attach-enode] #1158 0
[attach-enode] #4763 0
[attach-enode] #4756 0
[assign] #4756 justification -1: 
[mk-app] #4757 distinct-aux-f!!67 #1159
[mk-app] #4716 unique-value!431
[attach-enode] #4716 0
[mk-app] #4717 = #4757 #4716
[attach-enode] #1159 0
[attach-enode] #4757 0
[attach-enode] #4717 0
[assign] #4717 justification -1: 
[mk-app] #4708 distinct-aux-f!!67 #1160
[mk-app] #4709 unique-value!432
[attach-enode] #4709 0
[mk-app] #4701 = #4708 #4709
[attach-enode] #1160 0
[attach-enode] #4708 0
[attach-enode] #4701 0
[assign] #4701 justification -1: 
[mk-app] #4702 distinct-aux-f!!67 #1161
[mk-app] #4694 unique-value!433
[attach-enode] #4694 0
[mk-app] #4695 = #4702 #4694
[attach-enode] #1161 0
[attach-enode] #4702 0
[attach-enode] #4695 0
[assign] #4695 justification -1: 
[mk-app] #4686 distinct-aux-f!!67 #1162
[mk-app] #4687 unique-value!434
[attach-enode] #4687 0
[mk-app] #4680 = #4686 #4687
[attach-enode] #1162 0
[attach-enode] #4686 0
[attach-enode] #4680 0
[assign] #4680 justification -1: 
[mk-app] #4681 distinct-aux-f!!67 #1163
[mk-app] #4674 unique-value!435
[attach-enode] #4674 0
[mk-app] #4675 = #4681 #4674
[attach-enode] #1163 0
[attach-enode] #4681 0
[attach-enode] #4675 0
[assign] #4675 justification -1: 
[mk-app] #4667 distinct-aux-f!!67 #1164
[mk-app] #4668 unique-value!436
[attach-enode] #4668 0
[mk-app] #4650 = #4667 #4668
[attach-enode] #1164 0
[attach-enode] #4667 0
[attach-enode] #4650 0
[assign] #4650 justification -1: 
[mk-app] #4659 distinct-aux-f!!67 #1165
[mk-app] #4660 unique-value!437
[attach-enode] #4660 0
[mk-app] #4651 = #4659 #4660
[attach-enode] #1165 0
[attach-enode] #4659 0
[attach-enode] #4651 0
[assign] #4651 justification -1: 
[mk-app] #4652 distinct-aux-f!!67 #1166
[mk-app] #4638 unique-value!438
[attach-enode] #4638 0
[mk-app] #4639 = #4652 #4638
[attach-enode] #1166 0
[attach-enode] #4652 0
[attach-enode] #4639 0
[assign] #4639 justification -1: 
[mk-app] #4631 distinct-aux-f!!67 #1167
[mk-app] #4632 unique-value!439
[attach-enode] #4632 0
[mk-app] #4612 = #4631 #4632
[attach-enode] #1167 0
[attach-enode] #4631 0
[attach-enode] #4612 0
[assign] #4612 justification -1: 
[mk-app] #4621 distinct-aux-f!!67 #1168
[mk-app] #4622 unique-value!440
[attach-enode] #4622 0
[mk-app] #4613 = #4621 #4622
[attach-enode] #1168 0
[attach-enode] #4621 0
[attach-enode] #4613 0
[assign] #4613 justification -1: 
[mk-app] #4614 distinct-aux-f!!67 #1169
[mk-app] #3656 unique-value!441
[attach-enode] #3656 0
[mk-app] #3657 = #4614 #3656
[attach-enode] #1169 0
[attach-enode] #4614 0
[attach-enode] #3657 0
[assign] #3657 justification -1: 
[mk-app] #3649 distinct-aux-f!!67 #1170
[mk-app] #3650 unique-value!442
[attach-enode] #3650 0
[mk-app] #3614 = #3649 #3650
[attach-enode] #1170 0
[attach-enode] #3649 0
[attach-enode] #3614 0
[assign] #3614 justification -1: 
[mk-app] #3623 distinct-aux-f!!67 #1171
[mk-app] #3624 unique-value!443
[attach-enode] #3624 0
[mk-app] #3615 = #3623 #3624
[attach-enode] #1171 0
[attach-enode] #3623 0
[attach-enode] #3615 0
[assign] #3615 justification -1: 
[mk-app] #3616 distinct-aux-f!!67 #1172
[mk-app] #3477 unique-value!444
[attach-enode] #3477 0
[mk-app] #3605 = #3616 #3477
[attach-enode] #1172 0
[attach-enode] #3616 0
[attach-enode] #3605 0
[assign] #3605 justification -1: 
[mk-app] #3606 distinct-aux-f!!67 #1173
[mk-app] #3597 unique-value!445
[attach-enode] #3597 0
[mk-app] #3598 = #3606 #3597
[attach-enode] #1173 0
[attach-enode] #3606 0
[attach-enode] #3598 0
[assign] #3598 justification -1: 
[mk-app] #3517 distinct-aux-f!!67 #1174
[mk-app] #3518 unique-value!446
[attach-enode] #3518 0
[mk-app] #3510 = #3517 #3518
[attach-enode] #1174 0
[attach-enode] #3517 0
[attach-enode] #3510 0
[assign] #3510 justification -1: 
[mk-app] #3511 distinct-aux-f!!67 #1175
[mk-app] #3500 unique-value!447
[attach-enode] #3500 0
[mk-app] #3501 = #3511 #3500
[attach-enode] #1175 0
[attach-enode] #3511 0
[attach-enode] #3501 0
[assign] #3501 justification -1: 
[mk-app] #3493 distinct-aux-f!!67 #1176
[mk-app] #3494 unique-value!448
[attach-enode] #3494 0
[mk-app] #3485 = #3493 #3494
[attach-enode] #1176 0
[attach-enode] #3493 0
[attach-enode] #3485 0
[assign] #3485 justification -1: 
[mk-app] #3486 distinct-aux-f!!67 #1177
[mk-app] #3478 unique-value!449
[attach-enode] #3478 0
[mk-app] #3479 = #3486 #3478
[attach-enode] #1177 0
[attach-enode] #3486 0
[attach-enode] #3479 0
[assign] #3479 justification -1: 
[mk-app] #3402 distinct-aux-f!!67 #1178
[mk-app] #3403 unique-value!450
[attach-enode] #3403 0
[mk-app] #3394 = #3402 #3403
[attach-enode] #1178 0
[attach-enode] #3402 0
[attach-enode] #3394 0
[assign] #3394 justification -1: 
[mk-app] #3395 distinct-aux-f!!67 #1179
[mk-app] #3382 unique-value!451
[attach-enode] #3382 0
[mk-app] #3383 = #3395 #3382
[attach-enode] #1179 0
[attach-enode] #3395 0
[attach-enode] #3383 0
[assign] #3383 justification -1: 
[mk-app] #3375 distinct-aux-f!!67 #1180
[mk-app] #3376 unique-value!452
[attach-enode] #3376 0
[mk-app] #3366 = #3375 #3376
[attach-enode] #1180 0
[attach-enode] #3375 0
[attach-enode] #3366 0
[assign] #3366 justification -1: 
[mk-app] #3368 distinct-aux-f!!67 #1181
[mk-app] #3369 unique-value!453
[attach-enode] #3369 0
[mk-app] #3357 = #3368 #3369
[attach-enode] #1181 0
[attach-enode] #3368 0
[attach-enode] #3357 0
[assign] #3357 justification -1: 
[mk-app] #3358 distinct-aux-f!!67 #1182
[mk-app] #3348 unique-value!454
[attach-enode] #3348 0
[mk-app] #3349 = #3358 #3348
[attach-enode] #1182 0
[attach-enode] #3358 0
[attach-enode] #3349 0
[assign] #3349 justification -1: 
[mk-app] #3339 distinct-aux-f!!67 #1183
[mk-app] #3340 unique-value!455
[attach-enode] #3340 0
[mk-app] #3330 = #3339 #3340
[attach-enode] #1183 0
[attach-enode] #3339 0
[attach-enode] #3330 0
[assign] #3330 justification -1: 
[mk-app] #3331 distinct-aux-f!!67 #1184
[mk-app] #3321 unique-value!456
[attach-enode] #3321 0
[mk-app] #3322 = #3331 #3321
[attach-enode] #1184 0
[attach-enode] #3331 0
[attach-enode] #3322 0
[assign] #3322 justification -1: 
[mk-app] #3312 distinct-aux-f!!67 #1185
[mk-app] #3313 unique-value!457
[attach-enode] #3313 0
[mk-app] #3302 = #3312 #3313
[attach-enode] #1185 0
[attach-enode] #3312 0
[attach-enode] #3302 0
[assign] #3302 justification -1: 
[mk-app] #3303 distinct-aux-f!!67 #1186
[mk-app] #3293 unique-value!458
[attach-enode] #3293 0
[mk-app] #3294 = #3303 #3293
[attach-enode] #1186 0
[attach-enode] #3303 0
[attach-enode] #3294 0
[assign] #3294 justification -1: 
[mk-app] #3285 distinct-aux-f!!67 #1187
[mk-app] #3286 unique-value!459
[attach-enode] #3286 0
[mk-app] #3276 = #3285 #3286
[attach-enode] #1187 0
[attach-enode] #3285 0
[attach-enode] #3276 0
[assign] #3276 justification -1: 
[mk-app] #3277 distinct-aux-f!!67 #1188
[mk-app] #3269 unique-value!460
[attach-enode] #3269 0
[mk-app] #3270 = #3277 #3269
[attach-enode] #1188 0
[attach-enode] #3277 0
[attach-enode] #3270 0
[assign] #3270 justification -1: 
[mk-app] #3259 distinct-aux-f!!67 #1189
[mk-app] #3261 unique-value!461
[attach-enode] #3261 0
[mk-app] #3262 = #3259 #3261
[attach-enode] #1189 0
[attach-enode] #3259 0
[attach-enode] #3262 0
[assign] #3262 justification -1: 
[mk-app] #3243 distinct-aux-f!!67 #1190
[mk-app] #3245 unique-value!462
[attach-enode] #3245 0
[mk-app] #3246 = #3243 #3245
[attach-enode] #1190 0
[attach-enode] #3243 0
[attach-enode] #3246 0
[assign] #3246 justification -1: 
[mk-app] #3220 distinct-aux-f!!67 #1191
[mk-app] #3222 unique-value!463
[attach-enode] #3222 0
[mk-app] #3223 = #3220 #3222
[attach-enode] #1191 0
[attach-enode] #3220 0
[attach-enode] #3223 0
[assign] #3223 justification -1: 
[mk-app] #3188 distinct-aux-f!!67 #1192
[mk-app] #3190 unique-value!464
[attach-enode] #3190 0
[mk-app] #3191 = #3188 #3190
[attach-enode] #1192 0
[attach-enode] #3188 0
[attach-enode] #3191 0
[assign] #3191 justification -1: 
[mk-app] #3142 distinct-aux-f!!67 #1193
[mk-app] #3143 unique-value!465
[attach-enode] #3143 0
[mk-app] #3134 = #3142 #3143
[attach-enode] #1193 0
[attach-enode] #3142 0
[attach-enode] #3134 0
[assign] #3134 justification -1: 
[mk-app] #3135 distinct-aux-f!!67 #1194
[mk-app] #3110 unique-value!466
[attach-enode] #3110 0
[mk-app] #3111 = #3135 #3110
[attach-enode] #1194 0
[attach-enode] #3135 0
[attach-enode] #3111 0
[assign] #3111 justification -1: 
[mk-app] #3102 distinct-aux-f!!67 #1195
[mk-app] #3103 unique-value!467
[attach-enode] #3103 0
[mk-app] #2793 = #3102 #3103
[attach-enode] #1195 0
[attach-enode] #3102 0
[attach-enode] #2793 0
[assign] #2793 justification -1: 
[mk-app] #3094 distinct-aux-f!!67 #1196
[mk-app] #3095 unique-value!468
[attach-enode] #3095 0
[mk-app] #3087 = #3094 #3095
[attach-enode] #1196 0
[attach-enode] #3094 0
[attach-enode] #3087 0
[assign] #3087 justification -1: 
[mk-app] #3088 distinct-aux-f!!67 #1197
[mk-app] #3079 unique-value!469
[attach-enode] #3079 0
[mk-app] #3080 = #3088 #3079
[attach-enode] #1197 0
[attach-enode] #3088 0
[attach-enode] #3080 0
[assign] #3080 justification -1: 
[mk-app] #3071 distinct-aux-f!!67 #1198
[mk-app] #3072 unique-value!470
[attach-enode] #3072 0
[mk-app] #3061 = #3071 #3072
[attach-enode] #1198 0
[attach-enode] #3071 0
[attach-enode] #3061 0
[assign] #3061 justification -1: 
[mk-app] #3062 distinct-aux-f!!67 #1199
[mk-app] #3053 unique-value!471
[attach-enode] #3053 0
[mk-app] #3054 = #3062 #3053
[attach-enode] #1199 0
[attach-enode] #3062 0
[attach-enode] #3054 0
[assign] #3054 justification -1: 
[mk-app] #3043 distinct-aux-f!!67 #1200
[mk-app] #3044 unique-value!472
[attach-enode] #3044 0
[mk-app] #3028 = #3043 #3044
[attach-enode] #1200 0
[attach-enode] #3043 0
[attach-enode] #3028 0
[assign] #3028 justification -1: 
[mk-app] #3029 distinct-aux-f!!67 #1201
[mk-app] #3020 unique-value!473
[attach-enode] #3020 0
[mk-app] #3021 = #3029 #3020
[attach-enode] #1201 0
[attach-enode] #3029 0
[attach-enode] #3021 0
[assign] #3021 justification -1: 
[mk-app] #3010 distinct-aux-f!!67 #1202
[mk-app] #3011 unique-value!474
[attach-enode] #3011 0
[mk-app] #2995 = #3010 #3011
[attach-enode] #1202 0
[attach-enode] #3010 0
[attach-enode] #2995 0
[assign] #2995 justification -1: 
[mk-app] #2996 distinct-aux-f!!67 #1203
[mk-app] #2987 unique-value!475
[attach-enode] #2987 0
[mk-app] #2988 = #2996 #2987
[attach-enode] #1203 0
[attach-enode] #2996 0
[attach-enode] #2988 0
[assign] #2988 justification -1: 
[mk-app] #2961 distinct-aux-f!!67 #1204
[mk-app] #2962 unique-value!476
[attach-enode] #2962 0
[mk-app] #2953 = #2961 #2962
[attach-enode] #1204 0
[attach-enode] #2961 0
[attach-enode] #2953 0
[assign] #2953 justification -1: 
[mk-app] #2954 distinct-aux-f!!67 #1205
[mk-app] #2938 unique-value!477
[attach-enode] #2938 0
[mk-app] #2939 = #2954 #2938
[attach-enode] #1205 0
[attach-enode] #2954 0
[attach-enode] #2939 0
[assign] #2939 justification -1: 
[mk-app] #2927 distinct-aux-f!!67 #1206
[mk-app] #2929 unique-value!478
[attach-enode] #2929 0
[mk-app] #2930 = #2927 #2929
[attach-enode] #1206 0
[attach-enode] #2927 0
[attach-enode] #2930 0
[assign] #2930 justification -1: 
[mk-app] #2889 distinct-aux-f!!67 #1207
[mk-app] #2890 unique-value!479
[attach-enode] #2890 0
[mk-app] #2881 = #2889 #2890
[attach-enode] #1207 0
[attach-enode] #2889 0
[attach-enode] #2881 0
[assign] #2881 justification -1: 
[mk-app] #2882 distinct-aux-f!!67 #1208
[mk-app] #2873 unique-value!480
[attach-enode] #2873 0
[mk-app] #2874 = #2882 #2873
[attach-enode] #1208 0
[attach-enode] #2882 0
[attach-enode] #2874 0
[assign] #2874 justification -1: 
[mk-app] #2860 distinct-aux-f!!67 #1209
[mk-app] #2861 unique-value!481
[attach-enode] #2861 0
[mk-app] #2812 = #2860 #2861
[attach-enode] #1209 0
[attach-enode] #2860 0
[attach-enode] #2812 0
[assign] #2812 justification -1: 
[mk-app] #2813 distinct-aux-f!!67 #1210
[mk-app] #2805 unique-value!482
[attach-enode] #2805 0
[mk-app] #2806 = #2813 #2805
[attach-enode] #1210 0
[attach-enode] #2813 0
[attach-enode] #2806 0
[assign] #2806 justification -1: 
[mk-app] #2795 distinct-aux-f!!67 #1211
[mk-app] #2796 unique-value!483
[attach-enode] #2796 0
[mk-app] #2715 = #2795 #2796
[attach-enode] #1211 0
[attach-enode] #2795 0
[attach-enode] #2715 0
[assign] #2715 justification -1: 
[mk-app] #2716 distinct-aux-f!!67 #1212
[mk-app] #2717 unique-value!484
[attach-enode] #2717 0
[mk-app] #2697 = #2716 #2717
[attach-enode] #1212 0
[attach-enode] #2716 0
[attach-enode] #2697 0
[assign] #2697 justification -1: 
[mk-app] #2698 distinct-aux-f!!67 #1213
[mk-app] #2699 unique-value!485
[attach-enode] #2699 0
[mk-app] #11648 = #2698 #2699
[attach-enode] #1213 0
[attach-enode] #2698 0
[attach-enode] #11648 0
[assign] #11648 justification -1: 
[mk-app] #11652 distinct-aux-f!!67 #1214
[mk-app] #11653 unique-value!486
[attach-enode] #11653 0
[mk-app] #11654 = #11652 #11653
[attach-enode] #1214 0
[attach-enode] #11652 0
[attach-enode] #11654 0
[assign] #11654 justification -1: 
[mk-app] #11655 distinct-aux-f!!67 #1215
[mk-app] #11656 unique-value!487
[attach-enode] #11656 0
[mk-app] #11657 = #11655 #11656
[attach-enode] #1215 0
[attach-enode] #11655 0
[attach-enode] #11657 0
[assign] #11657 justification -1: 
[mk-app] #2658 distinct-aux-f!!67 #1216
[mk-app] #2659 unique-value!488
[attach-enode] #2659 0
[mk-app] #2660 = #2658 #2659
[attach-enode] #1216 0
[attach-enode] #2658 0
[attach-enode] #2660 0
[assign] #2660 justification -1: 
[mk-app] #2605 distinct-aux-f!!67 #1217
[mk-app] #2606 unique-value!489
[attach-enode] #2606 0
[mk-app] #2576 = #2605 #2606
[attach-enode] #1217 0
[attach-enode] #2605 0
[attach-enode] #2576 0
[assign] #2576 justification -1: 
[mk-app] #2577 distinct-aux-f!!67 #1218
[mk-app] #2578 unique-value!490
[attach-enode] #2578 0
[mk-app] #2468 = #2577 #2578
[attach-enode] #1218 0
[attach-enode] #2577 0
[attach-enode] #2468 0
[assign] #2468 justification -1: 
[mk-app] #2469 distinct-aux-f!!67 #1219
[mk-app] #2470 unique-value!491
[attach-enode] #2470 0
[mk-app] #2392 = #2469 #2470
[attach-enode] #1219 0
[attach-enode] #2469 0
[attach-enode] #2392 0
[assign] #2392 justification -1: 
[mk-app] #2393 distinct-aux-f!!67 #1220
[mk-app] #2394 unique-value!492
[attach-enode] #2394 0
[mk-app] #2325 = #2393 #2394
[attach-enode] #1220 0
[attach-enode] #2393 0
[attach-enode] #2325 0
[assign] #2325 justification -1: 
[mk-app] #2326 distinct-aux-f!!67 #1221
[mk-app] #2230 unique-value!493
[attach-enode] #2230 0
[mk-app] #2231 = #2326 #2230
[attach-enode] #1221 0
[attach-enode] #2326 0
[attach-enode] #2231 0
[assign] #2231 justification -1: 
[mk-app] #2232 distinct-aux-f!!67 #1222
[mk-app] #2195 unique-value!494
[attach-enode] #2195 0
[mk-app] #2196 = #2232 #2195
[attach-enode] #1222 0
[attach-enode] #2232 0
[attach-enode] #2196 0
[assign] #2196 justification -1: 
[mk-app] #2197 distinct-aux-f!!67 #1223
[mk-app] #2198 unique-value!495
[attach-enode] #2198 0
[mk-app] #2181 = #2197 #2198
[attach-enode] #1223 0
[attach-enode] #2197 0
[attach-enode] #2181 0
[assign] #2181 justification -1: 
[mk-app] #2182 distinct-aux-f!!67 #1224
[mk-app] #2183 unique-value!496
[attach-enode] #2183 0
[mk-app] #2184 = #2182 #2183
[attach-enode] #1224 0
[attach-enode] #2182 0
[attach-enode] #2184 0
[assign] #2184 justification -1: 
[mk-app] #1603 distinct-aux-f!!67 #1225
[mk-app] #1613 unique-value!497
[attach-enode] #1613 0
[mk-app] #1614 = #1603 #1613
[attach-enode] #1225 0
[attach-enode] #1603 0
[attach-enode] #1614 0
[assign] #1614 justification -1: 
[mk-app] #1604 distinct-aux-f!!67 #1226
[mk-app] #1605 unique-value!498
[attach-enode] #1605 0
[mk-app] #1496 = #1604 #1605
[attach-enode] #1226 0
[attach-enode] #1604 0
[attach-enode] #1496 0
[assign] #1496 justification -1: 
[mk-app] #1487 distinct-aux-f!!67 #1227
[mk-app] #1465 unique-value!499
[attach-enode] #1465 0
[mk-app] #1448 = #1487 #1465
[attach-enode] #1227 0
[attach-enode] #1487 0
[attach-enode] #1448 0
[assign] #1448 justification -1: 
[mk-app] #1427 distinct-aux-f!!67 #1228
[mk-app] #1415 unique-value!500
[attach-enode] #1415 0
[mk-app] #1385 = #1427 #1415
[attach-enode] #1228 0
[attach-enode] #1427 0
[attach-enode] #1385 0
[assign] #1385 justification -1: 
[mk-app] #1378 distinct-aux-f!!67 #1229
[mk-app] #785 unique-value!501
[attach-enode] #785 0
[mk-app] #786 = #1378 #785
[attach-enode] #1229 0
[attach-enode] #1378 0
[attach-enode] #786 0
[assign] #786 justification -1: 
[mk-app] #787 distinct-aux-f!!67 #1230
[mk-app] #748 unique-value!502
[attach-enode] #748 0
[mk-app] #749 = #787 #748
[attach-enode] #1230 0
[attach-enode] #787 0
[attach-enode] #749 0
[assign] #749 justification -1: 
[mk-app] #750 distinct-aux-f!!67 #1231
[mk-app] #751 unique-value!503
[attach-enode] #751 0
[mk-app] #737 = #750 #751
[attach-enode] #1231 0
[attach-enode] #750 0
[attach-enode] #737 0
[assign] #737 justification -1: 
[mk-app] #739 distinct-aux-f!!67 #1232
[mk-app] #740 unique-value!504
[attach-enode] #740 0
[mk-app] #741 = #739 #740
[attach-enode] #1232 0
[attach-enode] #739 0
[attach-enode] #741 0
[assign] #741 justification -1: 
[mk-app] #696 distinct-aux-f!!67 #1233
[mk-app] #727 unique-value!505
[attach-enode] #727 0
[mk-app] #728 = #696 #727
[attach-enode] #1233 0
[attach-enode] #696 0
[attach-enode] #728 0
[assign] #728 justification -1: 
[mk-app] #685 distinct-aux-f!!67 #1234
[mk-app] #720 unique-value!506
[attach-enode] #720 0
[mk-app] #721 = #685 #720
[attach-enode] #1234 0
[attach-enode] #685 0
[attach-enode] #721 0
[assign] #721 justification -1: 
[mk-app] #712 distinct-aux-f!!67 #1235
[mk-app] #713 unique-value!507
[attach-enode] #713 0
[mk-app] #705 = #712 #713
[attach-enode] #1235 0
[attach-enode] #712 0
[attach-enode] #705 0
[assign] #705 justification -1: 
[mk-app] #706 distinct-aux-f!!67 #1236
[mk-app] #697 unique-value!508
[attach-enode] #697 0
[mk-app] #698 = #706 #697
[attach-enode] #1236 0
[attach-enode] #706 0
[attach-enode] #698 0
[assign] #698 justification -1: 
[mk-app] #686 distinct-aux-f!!67 #1237
[mk-app] #687 unique-value!509
[attach-enode] #687 0
[mk-app] #651 = #686 #687
[attach-enode] #1237 0
[attach-enode] #686 0
[attach-enode] #651 0
[assign] #651 justification -1: 
[mk-app] #652 distinct-aux-f!!67 #1238
[mk-app] #658 unique-value!510
[attach-enode] #658 0
[mk-app] #672 = #652 #658
[attach-enode] #1238 0
[attach-enode] #652 0
[attach-enode] #672 0
[assign] #672 justification -1: 
[mk-app] #673 distinct-aux-f!!67 #1239
[mk-app] #674 unique-value!511
[attach-enode] #674 0
[mk-app] #675 = #673 #674
[attach-enode] #1239 0
[attach-enode] #673 0
[attach-enode] #675 0
[assign] #675 justification -1: 
[mk-app] #657 distinct-aux-f!!67 #1240
[mk-app] #659 unique-value!512
[attach-enode] #659 0
[mk-app] #660 = #657 #659
[attach-enode] #1240 0
[attach-enode] #657 0
[attach-enode] #660 0
[assign] #660 justification -1: 
[mk-app] #638 distinct-aux-f!!67 #1241
[mk-app] #639 unique-value!513
[attach-enode] #639 0
[mk-app] #641 = #638 #639
[attach-enode] #1241 0
[attach-enode] #638 0
[attach-enode] #641 0
[assign] #641 justification -1: 
[mk-app] #642 distinct-aux-f!!67 #1242
[mk-app] #434 unique-value!514
[attach-enode] #434 0
[mk-app] #435 = #642 #434
[attach-enode] #1242 0
[attach-enode] #642 0
[attach-enode] #435 0
[assign] #435 justification -1: 
[mk-app] #436 distinct-aux-f!!67 #1243
[mk-app] #458 unique-value!515
[attach-enode] #458 0
[mk-app] #459 = #436 #458
[attach-enode] #1243 0
[attach-enode] #436 0
[attach-enode] #459 0
[assign] #459 justification -1: 
[mk-app] #404 distinct-aux-f!!67 #1244
[mk-app] #406 unique-value!516
[attach-enode] #406 0
[mk-app] #454 = #404 #406
[attach-enode] #1244 0
[attach-enode] #404 0
[attach-enode] #454 0
[assign] #454 justification -1: 
[mk-app] #455 distinct-aux-f!!67 #1245
[mk-app] #373 unique-value!517
[attach-enode] #373 0
[mk-app] #375 = #455 #373
[attach-enode] #1245 0
[attach-enode] #455 0
[attach-enode] #375 0
[assign] #375 justification -1: 
[mk-app] #448 distinct-aux-f!!67 #1246
[mk-app] #449 unique-value!518
[attach-enode] #449 0
[mk-app] #429 = #448 #449
[attach-enode] #1246 0
[attach-enode] #448 0
[attach-enode] #429 0
[assign] #429 justification -1: 
[mk-app] #431 distinct-aux-f!!67 #1247
[mk-app] #432 unique-value!519
[attach-enode] #432 0
[mk-app] #438 = #431 #432
[attach-enode] #1247 0
[attach-enode] #431 0
[attach-enode] #438 0
[assign] #438 justification -1: 
[mk-app] #439 distinct-aux-f!!67 #1248
[mk-app] #440 unique-value!520
[attach-enode] #440 0
[mk-app] #441 = #439 #440
[attach-enode] #1248 0
[attach-enode] #439 0
[attach-enode] #441 0
[assign] #441 justification -1: 
[mk-app] #397 distinct-aux-f!!67 #1249
[mk-app] #407 unique-value!521
[attach-enode] #407 0
[mk-app] #408 = #397 #407
[attach-enode] #1249 0
[attach-enode] #397 0
[attach-enode] #408 0
[assign] #408 justification -1: 
[mk-app] #409 distinct-aux-f!!67 #1250
[mk-app] #410 unique-value!522
[attach-enode] #410 0
[mk-app] #367 = #409 #410
[attach-enode] #1250 0
[attach-enode] #409 0
[attach-enode] #367 0
[assign] #367 justification -1: 
[mk-app] #376 distinct-aux-f!!67 #1251
[mk-app] #377 unique-value!523
[attach-enode] #377 0
[mk-app] #378 = #376 #377
[attach-enode] #1251 0
[attach-enode] #376 0
[attach-enode] #378 0
[assign] #378 justification -1: 
[mk-app] #379 distinct-aux-f!!67 #1252
[mk-app] #349 unique-value!524
[attach-enode] #349 0
[mk-app] #350 = #379 #349
[attach-enode] #1252 0
[attach-enode] #379 0
[attach-enode] #350 0
[assign] #350 justification -1: 
[mk-app] #154 distinct-aux-f!!67 #1253
[mk-app] #155 unique-value!525
[attach-enode] #155 0
[mk-app] #75 = #154 #155
[attach-enode] #1253 0
[attach-enode] #154 0
[attach-enode] #75 0
[assign] #75 justification -1: 
[mk-app] #76 distinct-aux-f!!67 #1254
[mk-app] #77 unique-value!526
[attach-enode] #77 0
[mk-app] #14514 = #76 #77
[attach-enode] #1254 0
[attach-enode] #76 0
[attach-enode] #14514 0
[assign] #14514 justification -1: 
[mk-app] #14515 distinct-aux-f!!67 #1255
[mk-app] #14516 unique-value!527
[attach-enode] #14516 0
[mk-app] #14517 = #14515 #14516
[attach-enode] #1255 0
[attach-enode] #14515 0
[attach-enode] #14517 0
[assign] #14517 justification -1: 
[mk-app] #14518 distinct-aux-f!!67 #1256
[mk-app] #14519 unique-value!528
[attach-enode] #14519 0
[mk-app] #14520 = #14518 #14519
[attach-enode] #1256 0
[attach-enode] #14518 0
[attach-enode] #14520 0
[assign] #14520 justification -1: 
[mk-app] #14521 distinct-aux-f!!67 #1257
[mk-app] #14522 unique-value!529
[attach-enode] #14522 0
[mk-app] #14523 = #14521 #14522
[attach-enode] #1257 0
[attach-enode] #14521 0
[attach-enode] #14523 0
[assign] #14523 justification -1: 
[mk-app] #14524 distinct-aux-f!!67 #1258
[mk-app] #14525 unique-value!530
[attach-enode] #14525 0
[mk-app] #14526 = #14524 #14525
[attach-enode] #1258 0
[attach-enode] #14524 0
[attach-enode] #14526 0
[assign] #14526 justification -1: 
[mk-app] #14527 distinct-aux-f!!67 #1259
[mk-app] #14528 unique-value!531
[attach-enode] #14528 0
[mk-app] #14529 = #14527 #14528
[attach-enode] #1259 0
[attach-enode] #14527 0
[attach-enode] #14529 0
[assign] #14529 justification -1: 
[mk-app] #14530 distinct-aux-f!!67 #1260
[mk-app] #14531 unique-value!532
[attach-enode] #14531 0
[mk-app] #14532 = #14530 #14531
[attach-enode] #1260 0
[attach-enode] #14530 0
[attach-enode] #14532 0
[assign] #14532 justification -1: 
[mk-app] #14533 distinct-aux-f!!67 #1261
[mk-app] #14534 unique-value!533
[attach-enode] #14534 0
[mk-app] #14535 = #14533 #14534
[attach-enode] #1261 0
[attach-enode] #14533 0
[attach-enode] #14535 0
[assign] #14535 justification -1: 
[mk-app] #14536 distinct-aux-f!!67 #1262
[mk-app] #14537 unique-value!534
[attach-enode] #14537 0
[mk-app] #14538 = #14536 #14537
[attach-enode] #1262 0
[attach-enode] #14536 0
[attach-enode] #14538 0
[assign] #14538 justification -1: 
[mk-app] #14539 distinct-aux-f!!67 #1263
[mk-app] #14540 unique-value!535
[attach-enode] #14540 0
[mk-app] #14541 = #14539 #14540
[attach-enode] #1263 0
[attach-enode] #14539 0
[attach-enode] #14541 0
[assign] #14541 justification -1: 
[mk-app] #14542 distinct-aux-f!!67 #1264
[mk-app] #14543 unique-value!536
[attach-enode] #14543 0
[mk-app] #14544 = #14542 #14543
[attach-enode] #1264 0
[attach-enode] #14542 0
[attach-enode] #14544 0
[assign] #14544 justification -1: 
[mk-app] #14545 distinct-aux-f!!67 #1265
[mk-app] #14546 unique-value!537
[attach-enode] #14546 0
[mk-app] #14547 = #14545 #14546
[attach-enode] #1265 0
[attach-enode] #14545 0
[attach-enode] #14547 0
[assign] #14547 justification -1: 
[mk-app] #14548 distinct-aux-f!!67 #1266
[mk-app] #14549 unique-value!538
[attach-enode] #14549 0
[mk-app] #14550 = #14548 #14549
[attach-enode] #1266 0
[attach-enode] #14548 0
[attach-enode] #14550 0
[assign] #14550 justification -1: 
[mk-app] #14551 distinct-aux-f!!67 #1267
[mk-app] #14552 unique-value!539
[attach-enode] #14552 0
[mk-app] #14553 = #14551 #14552
[attach-enode] #1267 0
[attach-enode] #14551 0
[attach-enode] #14553 0
[assign] #14553 justification -1: 
[mk-app] #14554 distinct-aux-f!!67 #1268
[mk-app] #14555 unique-value!540
[attach-enode] #14555 0
[mk-app] #14556 = #14554 #14555
[attach-enode] #1268 0
[attach-enode] #14554 0
[attach-enode] #14556 0
[assign] #14556 justification -1: 
[mk-app] #14557 distinct-aux-f!!67 #1269
[mk-app] #14558 unique-value!541
[attach-enode] #14558 0
[mk-app] #14559 = #14557 #14558
[attach-enode] #1269 0
[attach-enode] #14557 0
[attach-enode] #14559 0
[assign] #14559 justification -1: 
[mk-app] #14560 distinct-aux-f!!67 #1270
[mk-app] #14561 unique-value!542
[attach-enode] #14561 0
[mk-app] #14562 = #14560 #14561
[attach-enode] #1270 0
[attach-enode] #14560 0
[attach-enode] #14562 0
[assign] #14562 justification -1: 
[mk-app] #14563 distinct-aux-f!!67 #1271
[mk-app] #14564 unique-value!543
[attach-enode] #14564 0
[mk-app] #14565 = #14563 #14564
[attach-enode] #1271 0
[attach-enode] #14563 0
[attach-enode] #14565 0
[assign] #14565 justification -1: 
[mk-app] #14566 distinct-aux-f!!67 #1272
[mk-app] #14567 unique-value!544
[attach-enode] #14567 0
[mk-app] #14568 = #14566 #14567
[attach-enode] #1272 0
[attach-enode] #14566 0
[attach-enode] #14568 0
[assign] #14568 justification -1: 
[mk-app] #14569 distinct-aux-f!!67 #1273
[mk-app] #14570 unique-value!545
[attach-enode] #14570 0
[mk-app] #14571 = #14569 #14570
[attach-enode] #1273 0
[attach-enode] #14569 0
[attach-enode] #14571 0
[assign] #14571 justification -1: 
[mk-app] #14572 distinct-aux-f!!67 #1274
[mk-app] #14573 unique-value!546
[attach-enode] #14573 0
[mk-app] #14574 = #14572 #14573
[attach-enode] #1274 0
[attach-enode] #14572 0
[attach-enode] #14574 0
[assign] #14574 justification -1: 
[mk-app] #14575 distinct-aux-f!!67 #1275
[mk-app] #14576 unique-value!547
[attach-enode] #14576 0
[mk-app] #14577 = #14575 #14576
[attach-enode] #1275 0
[attach-enode] #14575 0
[attach-enode] #14577 0
[assign] #14577 justification -1: 
[mk-app] #14578 distinct-aux-f!!67 #1276
[mk-app] #14579 unique-value!548
[attach-enode] #14579 0
[mk-app] #14580 = #14578 #14579
[attach-enode] #1276 0
[attach-enode] #14578 0
[attach-enode] #14580 0
[assign] #14580 justification -1: 
[mk-app] #14581 distinct-aux-f!!67 #1277
[mk-app] #14582 unique-value!549
[attach-enode] #14582 0
[mk-app] #14583 = #14581 #14582
[attach-enode] #1277 0
[attach-enode] #14581 0
[attach-enode] #14583 0
[assign] #14583 justification -1: 
[mk-app] #14584 distinct-aux-f!!67 #1278
[mk-app] #14585 unique-value!550
[attach-enode] #14585 0
[mk-app] #14586 = #14584 #14585
[attach-enode] #1278 0
[attach-enode] #14584 0
[attach-enode] #14586 0
[assign] #14586 justification -1: 
[mk-app] #14587 distinct-aux-f!!67 #1279
[mk-app] #14588 unique-value!551
[attach-enode] #14588 0
[mk-app] #14589 = #14587 #14588
[attach-enode] #1279 0
[attach-enode] #14587 0
[attach-enode] #14589 0
[assign] #14589 justification -1: 
[mk-app] #14590 distinct-aux-f!!67 #1280
[mk-app] #14591 unique-value!552
[attach-enode] #14591 0
[mk-app] #14592 = #14590 #14591
[attach-enode] #1280 0
[attach-enode] #14590 0
[attach-enode] #14592 0
[assign] #14592 justification -1: 
[mk-app] #14593 distinct-aux-f!!67 #1281
[mk-app] #14594 unique-value!553
[attach-enode] #14594 0
[mk-app] #14595 = #14593 #14594
[attach-enode] #1281 0
[attach-enode] #14593 0
[attach-enode] #14595 0
[assign] #14595 justification -1: 
[mk-app] #14596 distinct-aux-f!!67 #1282
[mk-app] #14597 unique-value!554
[attach-enode] #14597 0
[mk-app] #14598 = #14596 #14597
[attach-enode] #1282 0
[attach-enode] #14596 0
[attach-enode] #14598 0
[assign] #14598 justification -1: 
[mk-app] #14599 distinct-aux-f!!67 #1283
[mk-app] #14600 unique-value!555
[attach-enode] #14600 0
[mk-app] #14601 = #14599 #14600
[attach-enode] #1283 0
[attach-enode] #14599 0
[attach-enode] #14601 0
[assign] #14601 justification -1: 
[mk-app] #14602 distinct-aux-f!!67 #1284
[mk-app] #14603 unique-value!556
[attach-enode] #14603 0
[mk-app] #14604 = #14602 #14603
[attach-enode] #1284 0
[attach-enode] #14602 0
[attach-enode] #14604 0
[assign] #14604 justification -1: 
[mk-app] #14605 distinct-aux-f!!67 #1285
[mk-app] #14606 unique-value!557
[attach-enode] #14606 0
[mk-app] #14607 = #14605 #14606
[attach-enode] #1285 0
[attach-enode] #14605 0
[attach-enode] #14607 0
[assign] #14607 justification -1: 
[mk-app] #14608 distinct-aux-f!!67 #1286
[mk-app] #14609 unique-value!558
[attach-enode] #14609 0
[mk-app] #14610 = #14608 #14609
[attach-enode] #1286 0
[attach-enode] #14608 0
[attach-enode] #14610 0
[assign] #14610 justification -1: 
[mk-app] #14611 distinct-aux-f!!67 #1287
[mk-app] #14612 unique-value!559
[attach-enode] #14612 0
[mk-app] #14613 = #14611 #14612
[attach-enode] #1287 0
[attach-enode] #14611 0
[attach-enode] #14613 0
[assign] #14613 justification -1: 
[mk-app] #14614 distinct-aux-f!!67 #1288
[mk-app] #14615 unique-value!560
[attach-enode] #14615 0
[mk-app] #14616 = #14614 #14615
[attach-enode] #1288 0
[attach-enode] #14614 0
[attach-enode] #14616 0
[assign] #14616 justification -1: 
[mk-app] #14617 distinct-aux-f!!67 #1289
[mk-app] #14618 unique-value!561
[attach-enode] #14618 0
[mk-app] #14619 = #14617 #14618
[attach-enode] #1289 0
[attach-enode] #14617 0
[attach-enode] #14619 0
[assign] #14619 justification -1: 
[mk-app] #14620 distinct-aux-f!!67 #1290
[mk-app] #14621 unique-value!562
[attach-enode] #14621 0
[mk-app] #14622 = #14620 #14621
[attach-enode] #1290 0
[attach-enode] #14620 0
[attach-enode] #14622 0
[assign] #14622 justification -1: 
[mk-app] #14623 distinct-aux-f!!67 #1291
[mk-app] #14624 unique-value!563
[attach-enode] #14624 0
[mk-app] #14625 = #14623 #14624
[attach-enode] #1291 0
[attach-enode] #14623 0
[attach-enode] #14625 0
[assign] #14625 justification -1: 
[mk-app] #14626 distinct-aux-f!!67 #1292
[mk-app] #14627 unique-value!564
[attach-enode] #14627 0
[mk-app] #14628 = #14626 #14627
[attach-enode] #1292 0
[attach-enode] #14626 0
[attach-enode] #14628 0
[assign] #14628 justification -1: 
[mk-app] #14629 distinct-aux-f!!67 #1293
[mk-app] #14630 unique-value!565
[attach-enode] #14630 0
[mk-app] #14631 = #14629 #14630
[attach-enode] #1293 0
[attach-enode] #14629 0
[attach-enode] #14631 0
[assign] #14631 justification -1: 
[mk-app] #14632 distinct-aux-f!!67 #1294
[mk-app] #14633 unique-value!566
[attach-enode] #14633 0
[mk-app] #14634 = #14632 #14633
[attach-enode] #1294 0
[attach-enode] #14632 0
[attach-enode] #14634 0
[assign] #14634 justification -1: 
[mk-app] #14635 distinct-aux-f!!67 #1295
[mk-app] #14636 unique-value!567
[attach-enode] #14636 0
[mk-app] #14637 = #14635 #14636
[attach-enode] #1295 0
[attach-enode] #14635 0
[attach-enode] #14637 0
[assign] #14637 justification -1: 
[mk-app] #14638 distinct-aux-f!!67 #1296
[mk-app] #14639 unique-value!568
[attach-enode] #14639 0
[mk-app] #14640 = #14638 #14639
[attach-enode] #1296 0
[attach-enode] #14638 0
[attach-enode] #14640 0
[assign] #14640 justification -1: 
[mk-app] #14641 distinct-aux-f!!67 #1297
[mk-app] #14642 unique-value!569
[attach-enode] #14642 0
[mk-app] #14643 = #14641 #14642
[attach-enode] #1297 0
[attach-enode] #14641 0
[attach-enode] #14643 0
[assign] #14643 justification -1: 
[mk-app] #14644 distinct-aux-f!!67 #1298
[mk-app] #14645 unique-value!570
[attach-enode] #14645 0
[mk-app] #14646 = #14644 #14645
[attach-enode] #1298 0
[attach-enode] #14644 0
[attach-enode] #14646 0
[assign] #14646 justification -1: 
[mk-app] #14647 distinct-aux-f!!67 #1299
[mk-app] #14648 unique-value!571
[attach-enode] #14648 0
[mk-app] #14649 = #14647 #14648
[attach-enode] #1299 0
[attach-enode] #14647 0
[attach-enode] #14649 0
[assign] #14649 justification -1: 
[mk-app] #14650 distinct-aux-f!!67 #1300
[mk-app] #14651 unique-value!572
[attach-enode] #14651 0
[mk-app] #14652 = #14650 #14651
[attach-enode] #1300 0
[attach-enode] #14650 0
[attach-enode] #14652 0
[assign] #14652 justification -1: 
[mk-app] #14653 distinct-aux-f!!67 #1301
[mk-app] #14654 unique-value!573
[attach-enode] #14654 0
[mk-app] #14655 = #14653 #14654
[attach-enode] #1301 0
[attach-enode] #14653 0
[attach-enode] #14655 0
[assign] #14655 justification -1: 
[mk-app] #14656 distinct-aux-f!!67 #1302
[mk-app] #14657 unique-value!574
[attach-enode] #14657 0
[mk-app] #14658 = #14656 #14657
[attach-enode] #1302 0
[attach-enode] #14656 0
[attach-enode] #14658 0
[assign] #14658 justification -1: 
[mk-app] #14659 distinct-aux-f!!67 #1303
[mk-app] #14660 unique-value!575
[attach-enode] #14660 0
[mk-app] #14661 = #14659 #14660
[attach-enode] #1303 0
[attach-enode] #14659 0
[attach-enode] #14661 0
[assign] #14661 justification -1: 
[mk-app] #14662 distinct-aux-f!!67 #1304
[mk-app] #14663 unique-value!576
[attach-enode] #14663 0
[mk-app] #14664 = #14662 #14663
[attach-enode] #1304 0
[attach-enode] #14662 0
[attach-enode] #14664 0
[assign] #14664 justification -1: 
[mk-app] #14665 distinct-aux-f!!67 #1305
[mk-app] #14666 unique-value!577
[attach-enode] #14666 0
[mk-app] #14667 = #14665 #14666
[attach-enode] #1305 0
[attach-enode] #14665 0
[attach-enode] #14667 0
[assign] #14667 justification -1: 
[mk-app] #14668 distinct-aux-f!!67 #1306
[mk-app] #14669 unique-value!578
[attach-enode] #14669 0
[mk-app] #14670 = #14668 #14669
[attach-enode] #1306 0
[attach-enode] #14668 0
[attach-enode] #14670 0
[assign] #14670 justification -1: 
[mk-app] #14671 distinct-aux-f!!67 #1307
[mk-app] #14672 unique-value!579
[attach-enode] #14672 0
[mk-app] #14673 = #14671 #14672
[attach-enode] #1307 0
[attach-enode] #14671 0
[attach-enode] #14673 0
[assign] #14673 justification -1: 
[mk-app] #14674 distinct-aux-f!!67 #1308
[mk-app] #14675 unique-value!580
[attach-enode] #14675 0
[mk-app] #14676 = #14674 #14675
[attach-enode] #1308 0
[attach-enode] #14674 0
[attach-enode] #14676 0
[assign] #14676 justification -1: 
[mk-app] #14677 distinct-aux-f!!67 #1309
[mk-app] #14678 unique-value!581
[attach-enode] #14678 0
[mk-app] #14679 = #14677 #14678
[attach-enode] #1309 0
[attach-enode] #14677 0
[attach-enode] #14679 0
[assign] #14679 justification -1: 
[mk-app] #14680 distinct-aux-f!!67 #1310
[mk-app] #14681 unique-value!582
[attach-enode] #14681 0
[mk-app] #14682 = #14680 #14681
[attach-enode] #1310 0
[attach-enode] #14680 0
[attach-enode] #14682 0
[assign] #14682 justification -1: 
[mk-app] #14683 distinct-aux-f!!67 #1311
[mk-app] #14684 unique-value!583
[attach-enode] #14684 0
[mk-app] #14685 = #14683 #14684
[attach-enode] #1311 0
[attach-enode] #14683 0
[attach-enode] #14685 0
[assign] #14685 justification -1: 
[mk-app] #14686 distinct-aux-f!!67 #1312
[mk-app] #14687 unique-value!584
[attach-enode] #14687 0
[mk-app] #14688 = #14686 #14687
[attach-enode] #1312 0
[attach-enode] #14686 0
[attach-enode] #14688 0
[assign] #14688 justification -1: 
[mk-app] #14689 distinct-aux-f!!67 #1313
[mk-app] #14690 unique-value!585
[attach-enode] #14690 0
[mk-app] #14691 = #14689 #14690
[attach-enode] #1313 0
[attach-enode] #14689 0
[attach-enode] #14691 0
[assign] #14691 justification -1: 
[mk-app] #14692 distinct-aux-f!!67 #1314
[mk-app] #14693 unique-value!586
[attach-enode] #14693 0
[mk-app] #14694 = #14692 #14693
[attach-enode] #1314 0
[attach-enode] #14692 0
[attach-enode] #14694 0
[assign] #14694 justification -1: 
[mk-app] #14695 distinct-aux-f!!67 #1315
[mk-app] #14696 unique-value!587
[attach-enode] #14696 0
[mk-app] #14697 = #14695 #14696
[attach-enode] #1315 0
[attach-enode] #14695 0
[attach-enode] #14697 0
[assign] #14697 justification -1: 
[mk-app] #14698 distinct-aux-f!!67 #1316
[mk-app] #14699 unique-value!588
[attach-enode] #14699 0
[mk-app] #14700 = #14698 #14699
[attach-enode] #1316 0
[attach-enode] #14698 0
[attach-enode] #14700 0
[assign] #14700 justification -1: 
[mk-app] #14701 distinct-aux-f!!67 #1317
[mk-app] #14702 unique-value!589
[attach-enode] #14702 0
[mk-app] #14703 = #14701 #14702
[attach-enode] #1317 0
[attach-enode] #14701 0
[attach-enode] #14703 0
[assign] #14703 justification -1: 
[mk-app] #14704 distinct-aux-f!!67 #1318
[mk-app] #14705 unique-value!590
[attach-enode] #14705 0
[mk-app] #14706 = #14704 #14705
[attach-enode] #1318 0
[attach-enode] #14704 0
[attach-enode] #14706 0
[assign] #14706 justification -1: 
[mk-app] #14707 distinct-aux-f!!67 #1319
[mk-app] #14708 unique-value!591
[attach-enode] #14708 0
[mk-app] #14709 = #14707 #14708
[attach-enode] #1319 0
[attach-enode] #14707 0
[attach-enode] #14709 0
[assign] #14709 justification -1: 
[mk-app] #14710 distinct-aux-f!!67 #1320
[mk-app] #14711 unique-value!592
[attach-enode] #14711 0
[mk-app] #14712 = #14710 #14711
[attach-enode] #1320 0
[attach-enode] #14710 0
[attach-enode] #14712 0
[assign] #14712 justification -1: 
[mk-app] #14713 distinct-aux-f!!67 #1321
[mk-app] #14714 unique-value!593
[attach-enode] #14714 0
[mk-app] #14715 = #14713 #14714
[attach-enode] #1321 0
[attach-enode] #14713 0
[attach-enode] #14715 0
[assign] #14715 justification -1: 
[mk-app] #14716 distinct-aux-f!!67 #1322
[mk-app] #14717 unique-value!594
[attach-enode] #14717 0
[mk-app] #14718 = #14716 #14717
[attach-enode] #1322 0
[attach-enode] #14716 0
[attach-enode] #14718 0
[assign] #14718 justification -1: 
[mk-app] #14719 distinct-aux-f!!67 #1323
[mk-app] #14720 unique-value!595
[attach-enode] #14720 0
[mk-app] #14721 = #14719 #14720
[attach-enode] #1323 0
[attach-enode] #14719 0
[attach-enode] #14721 0
[assign] #14721 justification -1: 
[mk-app] #14722 distinct-aux-f!!67 #1324
[mk-app] #14723 unique-value!596
[attach-enode] #14723 0
[mk-app] #14724 = #14722 #14723
[attach-enode] #1324 0
[attach-enode] #14722 0
[attach-enode] #14724 0
[assign] #14724 justification -1: 
[mk-app] #14725 distinct-aux-f!!67 #1325
[mk-app] #14726 unique-value!597
[attach-enode] #14726 0
[mk-app] #14727 = #14725 #14726
[attach-enode] #1325 0
[attach-enode] #14725 0
[attach-enode] #14727 0
[assign] #14727 justification -1: 
[mk-app] #14728 distinct-aux-f!!67 #1326
[mk-app] #14729 unique-value!598
[attach-enode] #14729 0
[mk-app] #14730 = #14728 #14729
[attach-enode] #1326 0
[attach-enode] #14728 0
[attach-enode] #14730 0
[assign] #14730 justification -1: 
[mk-app] #14731 distinct-aux-f!!67 #1327
[mk-app] #14732 unique-value!599
[attach-enode] #14732 0
[mk-app] #14733 = #14731 #14732
[attach-enode] #1327 0
[attach-enode] #14731 0
[attach-enode] #14733 0
[assign] #14733 justification -1: 
[mk-app] #14734 distinct-aux-f!!67 #1328
[mk-app] #14735 unique-value!600
[attach-enode] #14735 0
[mk-app] #14736 = #14734 #14735
[attach-enode] #1328 0
[attach-enode] #14734 0
[attach-enode] #14736 0
[assign] #14736 justification -1: 
[mk-app] #14737 distinct-aux-f!!67 #1329
[mk-app] #14738 unique-value!601
[attach-enode] #14738 0
[mk-app] #14739 = #14737 #14738
[attach-enode] #1329 0
[attach-enode] #14737 0
[attach-enode] #14739 0
[assign] #14739 justification -1: 
[mk-app] #14740 distinct-aux-f!!67 #1330
[mk-app] #14741 unique-value!602
[attach-enode] #14741 0
[mk-app] #14742 = #14740 #14741
[attach-enode] #1330 0
[attach-enode] #14740 0
[attach-enode] #14742 0
[assign] #14742 justification -1: 
[mk-app] #14743 distinct-aux-f!!67 #1331
[mk-app] #14744 unique-value!603
[attach-enode] #14744 0
[mk-app] #14745 = #14743 #14744
[attach-enode] #1331 0
[attach-enode] #14743 0
[attach-enode] #14745 0
[assign] #14745 justification -1: 
[mk-app] #14746 distinct-aux-f!!67 #1332
[mk-app] #14747 unique-value!604
[attach-enode] #14747 0
[mk-app] #14748 = #14746 #14747
[attach-enode] #1332 0
[attach-enode] #14746 0
[attach-enode] #14748 0
[assign] #14748 justification -1: 
[mk-app] #14749 distinct-aux-f!!67 #1333
[mk-app] #14750 unique-value!605
[attach-enode] #14750 0
[mk-app] #14751 = #14749 #14750
[attach-enode] #1333 0
[attach-enode] #14749 0
[attach-enode] #14751 0
[assign] #14751 justification -1: 
[mk-app] #14752 distinct-aux-f!!67 #1334
[mk-app] #14753 unique-value!606
[attach-enode] #14753 0
[mk-app] #14754 = #14752 #14753
[attach-enode] #1334 0
[attach-enode] #14752 0
[attach-enode] #14754 0
[assign] #14754 justification -1: 
[mk-app] #14755 distinct-aux-f!!67 #1335
[mk-app] #14756 unique-value!607
[attach-enode] #14756 0
[mk-app] #14757 = #14755 #14756
[attach-enode] #1335 0
[attach-enode] #14755 0
[attach-enode] #14757 0
[assign] #14757 justification -1: 
[mk-app] #14758 distinct-aux-f!!67 #1336
[mk-app] #14759 unique-value!608
[attach-enode] #14759 0
[mk-app] #14760 = #14758 #14759
[attach-enode] #1336 0
[attach-enode] #14758 0
[attach-enode] #14760 0
[assign] #14760 justification -1: 
[mk-app] #14761 distinct-aux-f!!67 #1337
[mk-app] #14762 unique-value!609
[attach-enode] #14762 0
[mk-app] #14763 = #14761 #14762
[attach-enode] #1337 0
[attach-enode] #14761 0
[attach-enode] #14763 0
[assign] #14763 justification -1: 
[mk-app] #14764 distinct-aux-f!!67 #1338
[mk-app] #14765 unique-value!610
[attach-enode] #14765 0
[mk-app] #14766 = #14764 #14765
[attach-enode] #1338 0
[attach-enode] #14764 0
[attach-enode] #14766 0
[assign] #14766 justification -1: 
[mk-app] #14767 distinct-aux-f!!67 #1339
[mk-app] #14768 unique-value!611
[attach-enode] #14768 0
[mk-app] #14769 = #14767 #14768
[attach-enode] #1339 0
[attach-enode] #14767 0
[attach-enode] #14769 0
[assign] #14769 justification -1: 
[mk-app] #14770 distinct-aux-f!!67 #1340
[mk-app] #14771 unique-value!612
[attach-enode] #14771 0
[mk-app] #14772 = #14770 #14771
[attach-enode] #1340 0
[attach-enode] #14770 0
[attach-enode] #14772 0
[assign] #14772 justification -1: 
[mk-app] #14773 distinct-aux-f!!67 #1341
[mk-app] #14774 unique-value!613
[attach-enode] #14774 0
[mk-app] #14775 = #14773 #14774
[attach-enode] #1341 0
[attach-enode] #14773 0
[attach-enode] #14775 0
[assign] #14775 justification -1: 
[mk-app] #14776 distinct-aux-f!!67 #1342
[mk-app] #14777 unique-value!614
[attach-enode] #14777 0
[mk-app] #14778 = #14776 #14777
[attach-enode] #1342 0
[attach-enode] #14776 0
[attach-enode] #14778 0
[assign] #14778 justification -1: 
[mk-app] #14779 distinct-aux-f!!67 #1343
[mk-app] #14780 unique-value!615
[attach-enode] #14780 0
[mk-app] #14781 = #14779 #14780
[attach-enode] #1343 0
[attach-enode] #14779 0
[attach-enode] #14781 0
[assign] #14781 justification -1: 
[mk-app] #14782 distinct-aux-f!!67 #1344
[mk-app] #14783 unique-value!616
[attach-enode] #14783 0
[mk-app] #14784 = #14782 #14783
[attach-enode] #1344 0
[attach-enode] #14782 0
[attach-enode] #14784 0
[assign] #14784 justification -1: 
[mk-app] #14785 distinct-aux-f!!67 #1345
[mk-app] #14786 unique-value!617
[attach-enode] #14786 0
[mk-app] #14787 = #14785 #14786
[attach-enode] #1345 0
[attach-enode] #14785 0
[attach-enode] #14787 0
[assign] #14787 justification -1: 
[mk-app] #14788 distinct-aux-f!!67 #1346
[mk-app] #14789 unique-value!618
[attach-enode] #14789 0
[mk-app] #14790 = #14788 #14789
[attach-enode] #1346 0
[attach-enode] #14788 0
[attach-enode] #14790 0
[assign] #14790 justification -1: 
[mk-app] #14791 distinct-aux-f!!67 #1347
[mk-app] #14792 unique-value!619
[attach-enode] #14792 0
[mk-app] #14793 = #14791 #14792
[attach-enode] #1347 0
[attach-enode] #14791 0
[attach-enode] #14793 0
[assign] #14793 justification -1: 
[mk-app] #14794 distinct-aux-f!!67 #1348
[mk-app] #14795 unique-value!620
[attach-enode] #14795 0
[mk-app] #14796 = #14794 #14795
[attach-enode] #1348 0
[attach-enode] #14794 0
[attach-enode] #14796 0
[assign] #14796 justification -1: 
[mk-app] #14797 distinct-aux-f!!67 #1349
[mk-app] #14798 unique-value!621
[attach-enode] #14798 0
[mk-app] #14799 = #14797 #14798
[attach-enode] #1349 0
[attach-enode] #14797 0
[attach-enode] #14799 0
[assign] #14799 justification -1: 
[mk-app] #14800 distinct-aux-f!!67 #1350
[mk-app] #14801 unique-value!622
[attach-enode] #14801 0
[mk-app] #14802 = #14800 #14801
[attach-enode] #1350 0
[attach-enode] #14800 0
[attach-enode] #14802 0
[assign] #14802 justification -1: 
[mk-app] #14803 distinct-aux-f!!67 #1351
[mk-app] #14804 unique-value!623
[attach-enode] #14804 0
[mk-app] #14805 = #14803 #14804
[attach-enode] #1351 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[assign] #14805 justification -1: 
[mk-app] #14806 distinct-aux-f!!67 #1352
[mk-app] #14807 unique-value!624
[attach-enode] #14807 0
[mk-app] #14808 = #14806 #14807
[attach-enode] #1352 0
[attach-enode] #14806 0
[attach-enode] #14808 0
[assign] #14808 justification -1: 
[mk-app] #14809 distinct-aux-f!!67 #1353
[mk-app] #14810 unique-value!625
[attach-enode] #14810 0
[mk-app] #14811 = #14809 #14810
[attach-enode] #1353 0
[attach-enode] #14809 0
[attach-enode] #14811 0
[assign] #14811 justification -1: 
[mk-app] #14812 distinct-aux-f!!67 #1354
[mk-app] #14813 unique-value!626
[attach-enode] #14813 0
[mk-app] #14814 = #14812 #14813
[attach-enode] #1354 0
[attach-enode] #14812 0
[attach-enode] #14814 0
[assign] #14814 justification -1: 
[mk-app] #14815 distinct-aux-f!!67 #1355
[mk-app] #14816 unique-value!627
[attach-enode] #14816 0
[mk-app] #14817 = #14815 #14816
[attach-enode] #1355 0
[attach-enode] #14815 0
[attach-enode] #14817 0
[assign] #14817 justification -1: 
[mk-app] #14818 distinct-aux-f!!67 #1356
[mk-app] #14819 unique-value!628
[attach-enode] #14819 0
[mk-app] #14820 = #14818 #14819
[attach-enode] #1356 0
[attach-enode] #14818 0
[attach-enode] #14820 0
[assign] #14820 justification -1: 
[mk-app] #14821 distinct-aux-f!!67 #1357
[mk-app] #14822 unique-value!629
[attach-enode] #14822 0
[mk-app] #14823 = #14821 #14822
[attach-enode] #1357 0
[attach-enode] #14821 0
[attach-enode] #14823 0
[assign] #14823 justification -1: 
[mk-app] #14824 distinct-aux-f!!67 #1358
[mk-app] #14825 unique-value!630
[attach-enode] #14825 0
[mk-app] #14826 = #14824 #14825
[attach-enode] #1358 0
[attach-enode] #14824 0
[attach-enode] #14826 0
[assign] #14826 justification -1: 
[mk-app] #14827 distinct-aux-f!!67 #1359
[mk-app] #14828 unique-value!631
[attach-enode] #14828 0
[mk-app] #14829 = #14827 #14828
[attach-enode] #1359 0
[attach-enode] #14827 0
[attach-enode] #14829 0
[assign] #14829 justification -1: 
[mk-app] #14830 distinct-aux-f!!67 #1360
[mk-app] #14831 unique-value!632
[attach-enode] #14831 0
[mk-app] #14832 = #14830 #14831
[attach-enode] #1360 0
[attach-enode] #14830 0
[attach-enode] #14832 0
[assign] #14832 justification -1: 
[mk-app] #14833 distinct-aux-f!!67 #1361
[mk-app] #14834 unique-value!633
[attach-enode] #14834 0
[mk-app] #14835 = #14833 #14834
[attach-enode] #1361 0
[attach-enode] #14833 0
[attach-enode] #14835 0
[assign] #14835 justification -1: 
[mk-app] #14836 distinct-aux-f!!67 #1362
[mk-app] #14837 unique-value!634
[attach-enode] #14837 0
[mk-app] #14838 = #14836 #14837
[attach-enode] #1362 0
[attach-enode] #14836 0
[attach-enode] #14838 0
[assign] #14838 justification -1: 
[mk-app] #14839 distinct-aux-f!!67 #1363
[mk-app] #14840 unique-value!635
[attach-enode] #14840 0
[mk-app] #14841 = #14839 #14840
[attach-enode] #1363 0
[attach-enode] #14839 0
[attach-enode] #14841 0
[assign] #14841 justification -1: 
[mk-app] #14842 distinct-aux-f!!67 #1364
[mk-app] #14843 unique-value!636
[attach-enode] #14843 0
[mk-app] #14844 = #14842 #14843
[attach-enode] #1364 0
[attach-enode] #14842 0
[attach-enode] #14844 0
[assign] #14844 justification -1: 
[mk-app] #14845 distinct-aux-f!!67 #1365
[mk-app] #14846 unique-value!637
[attach-enode] #14846 0
[mk-app] #14847 = #14845 #14846
[attach-enode] #1365 0
[attach-enode] #14845 0
[attach-enode] #14847 0
[assign] #14847 justification -1: 
[mk-app] #14848 distinct-aux-f!!67 #1366
[mk-app] #14849 unique-value!638
[attach-enode] #14849 0
[mk-app] #14850 = #14848 #14849
[attach-enode] #1366 0
[attach-enode] #14848 0
[attach-enode] #14850 0
[assign] #14850 justification -1: 
[attach-enode] #1368 0
[attach-enode] #1369 0
[attach-enode] #1370 0
[attach-enode] #1371 0
[attach-enode] #1372 0
[attach-enode] #1373 0
[attach-enode] #1374 0
[attach-enode] #1379 0
[attach-enode] #1380 0
[attach-enode] #1381 0
[attach-enode] #1386 0
[attach-enode] #1387 0
[attach-enode] #1388 0
[attach-enode] #1389 0
[attach-enode] #1390 0
[attach-enode] #1391 0
[attach-enode] #1392 0
[attach-enode] #1393 0
[attach-enode] #1394 0
[attach-enode] #1395 0
[attach-enode] #1396 0
[attach-enode] #1397 0
[attach-enode] #1398 0
[attach-enode] #1399 0
[attach-enode] #1400 0
[attach-enode] #1401 0
[attach-enode] #1402 0
[attach-enode] #1403 0
[attach-enode] #1404 0
[attach-enode] #1405 0
[attach-enode] #1406 0
[attach-enode] #1407 0
[attach-enode] #1408 0
[attach-enode] #1409 0
[attach-enode] #1410 0
[attach-enode] #1411 0
[attach-enode] #1416 0
[attach-enode] #1417 0
[attach-enode] #1421 0
[attach-enode] #1422 0
[attach-enode] #1423 0
[attach-enode] #1428 0
[attach-enode] #1429 0
[attach-enode] #1430 0
[attach-enode] #1431 0
[attach-enode] #1432 0
[attach-enode] #1433 0
[attach-enode] #1434 0
[attach-enode] #1435 0
[attach-enode] #1436 0
[attach-enode] #1437 0
[attach-enode] #1438 0
[attach-enode] #1439 0
[attach-enode] #1440 0
[attach-enode] #1441 0
[attach-enode] #1442 0
[attach-enode] #1443 0
[attach-enode] #1444 0
[attach-enode] #1449 0
[attach-enode] #1450 0
[attach-enode] #1454 0
[attach-enode] #1455 0
[attach-enode] #1456 0
[attach-enode] #1457 0
[attach-enode] #1458 0
[attach-enode] #1459 0
[attach-enode] #1460 0
[attach-enode] #1461 0
[attach-enode] #1466 0
[attach-enode] #1467 0
[attach-enode] #1471 0
[attach-enode] #1472 0
[attach-enode] #1473 0
[attach-enode] #1474 0
[attach-enode] #1475 0
[attach-enode] #1476 0
[attach-enode] #1477 0
[attach-enode] #1478 0
[attach-enode] #1479 0
[attach-enode] #1480 0
[attach-enode] #1481 0
[attach-enode] #1482 0
[attach-enode] #1483 0
[attach-enode] #1488 0
[attach-enode] #1489 0
[attach-enode] #1490 0
[attach-enode] #1491 0
[attach-enode] #1492 0
[attach-enode] #1497 0
[attach-enode] #1498 0
[attach-enode] #1502 0
[assign] #1502 justification -1: 
[assign] #1428 justification -1: 
[assign] #1449 justification -1: 
[attach-enode] #1503 0
[assign] #1503 justification -1: 
[attach-enode] #1504 0
[assign] #1504 justification -1: 
[attach-enode] #1505 0
[assign] #1505 justification -1: 
[attach-enode] #1506 0
[assign] #1506 justification -1: 
[attach-enode] #1507 0
[assign] #1507 justification -1: 
[attach-enode] #1508 0
[assign] #1508 justification -1: 
[assign] #1379 justification -1: 
[assign] #1386 justification -1: 
[attach-enode] #1509 0
[assign] #1509 justification -1: 
[assign] #1454 justification -1: 
[assign] #1368 justification -1: 
[attach-enode] #1510 0
[assign] #1510 justification -1: 
[assign] #1421 justification -1: 
[assign] #1416 justification -1: 
[attach-enode] #1511 0
[assign] #1511 justification -1: 
[assign] #1471 justification -1: 
[attach-enode] #1512 0
[assign] #1512 justification -1: 
[attach-enode] #1513 0
[assign] #1513 justification -1: 
[attach-enode] #1514 0
[assign] #1514 justification -1: 
[attach-enode] #1515 0
[assign] #1515 justification -1: 
[assign] #1466 justification -1: 
[assign] #1488 justification -1: 
[attach-enode] #1516 0
[assign] #1516 justification -1: 
[attach-enode] #1517 0
[assign] #1517 justification -1: 
[attach-enode] #1518 0
[assign] #1518 justification -1: 
[assign] #1497 justification -1: 
[attach-enode] #1523 0
[assign] #1523 justification -1: 
[attach-enode] #1524 0
[assign] #1524 justification -1: 
[attach-enode] #1525 0
[assign] #1525 justification -1: 
[assign] #1534 justification -1: 
[assign] #1541 justification -1: 
[attach-enode] #1542 0
[attach-enode] #1543 0
[attach-enode] #203 0
[attach-enode] #1544 0
[assign] #1544 justification -1: 
[attach-enode] #1545 0
[attach-enode] #1546 0
[assign] #1546 justification -1: 
[assign] #1550 justification -1: 
[assign] #1554 justification -1: 
[assign] #1559 justification -1: 
[assign] #1572 justification -1: 
[assign] #11622 justification -1: 
[assign] #10682 justification -1: 
[assign] #10571 justification -1: 
[assign] #11637 justification -1: 
[assign] #1647 justification -1: 
[assign] #1658 justification -1: 
[assign] #1664 justification -1: 
[assign] #1676 justification -1: 
[assign] #1679 justification -1: 
[assign] #1685 justification -1: 
[assign] #1697 justification -1: 
[assign] #1700 justification -1: 
[assign] #1706 justification -1: 
[assign] #1718 justification -1: 
[assign] #1721 justification -1: 
[assign] #1727 justification -1: 
[assign] #1739 justification -1: 
[assign] #1742 justification -1: 
[assign] #1748 justification -1: 
[assign] #1760 justification -1: 
[assign] #1763 justification -1: 
[assign] #1769 justification -1: 
[assign] #1781 justification -1: 
[assign] #1784 justification -1: 
[assign] #1790 justification -1: 
[assign] #1802 justification -1: 
[assign] #1805 justification -1: 
[assign] #1811 justification -1: 
[assign] #1823 justification -1: 
[assign] #1826 justification -1: 
[assign] #1832 justification -1: 
[assign] #1844 justification -1: 
[assign] #1847 justification -1: 
[assign] #1853 justification -1: 
[assign] #1865 justification -1: 
[assign] #1868 justification -1: 
[assign] #1874 justification -1: 
[assign] #1886 justification -1: 
[assign] #1889 justification -1: 
[assign] #1895 justification -1: 
[assign] #1907 justification -1: 
[assign] #1910 justification -1: 
[assign] #1916 justification -1: 
[assign] #1927 justification -1: 
[assign] #1930 justification -1: 
[assign] #1936 justification -1: 
[assign] #1947 justification -1: 
[assign] #1950 justification -1: 
[assign] #1956 justification -1: 
[assign] #1966 justification -1: 
[assign] #1969 justification -1: 
[assign] #1975 justification -1: 
[assign] #1986 justification -1: 
[assign] #1989 justification -1: 
[assign] #1995 justification -1: 
[assign] #2006 justification -1: 
[assign] #2009 justification -1: 
[assign] #2015 justification -1: 
[assign] #2026 justification -1: 
[assign] #2029 justification -1: 
[assign] #2035 justification -1: 
[assign] #2046 justification -1: 
[assign] #2049 justification -1: 
[assign] #2055 justification -1: 
[assign] #2066 justification -1: 
[assign] #2069 justification -1: 
[assign] #2075 justification -1: 
[assign] #2086 justification -1: 
[assign] #2089 justification -1: 
[assign] #2095 justification -1: 
[assign] #2106 justification -1: 
[assign] #2109 justification -1: 
[assign] #2115 justification -1: 
[assign] #2126 justification -1: 
[assign] #2132 justification -1: 
[assign] #2141 justification -1: 
[assign] #2152 justification -1: 
[assign] #2159 justification -1: 
[assign] #2167 justification -1: 
[assign] #10370 justification -1: 
[assign] #10268 justification -1: 
[assign] #2204 justification -1: 
[assign] #2215 justification -1: 
[assign] #10184 justification -1: 
[assign] #2237 justification -1: 
[assign] #2242 justification -1: 
[assign] #2249 justification -1: 
[assign] #2254 justification -1: 
[assign] #2261 justification -1: 
[assign] #2266 justification -1: 
[assign] #2276 justification -1: 
[assign] #2285 justification -1: 
[assign] #2291 justification -1: 
[assign] #2297 justification -1: 
[assign] #2302 justification -1: 
[assign] #2313 justification -1: 
[assign] #10017 justification -1: 
[assign] #2331 justification -1: 
[assign] #2338 justification -1: 
[assign] #2343 justification -1: 
[assign] #2350 justification -1: 
[assign] #2359 justification -1: 
[assign] #2365 justification -1: 
[assign] #2370 justification -1: 
[assign] #2381 justification -1: 
[assign] #9950 justification -1: 
[assign] #2399 justification -1: 
[assign] #2406 justification -1: 
[assign] #2411 justification -1: 
[assign] #2418 justification -1: 
[assign] #2423 justification -1: 
[assign] #2432 justification -1: 
[assign] #2438 justification -1: 
[assign] #2443 justification -1: 
[assign] #2454 justification -1: 
[assign] #9725 justification -1: 
[assign] #2475 justification -1: 
[assign] #2482 justification -1: 
[assign] #2487 justification -1: 
[assign] #2492 justification -1: 
[assign] #2500 justification -1: 
[assign] #2506 justification -1: 
[assign] #2516 justification -1: 
[assign] #2519 justification -1: 
[assign] #2525 justification -1: 
[assign] #2536 justification -1: 
[assign] #2544 justification -1: 
[assign] #2549 justification -1: 
[assign] #2556 justification -1: 
[assign] #2565 justification -1: 
[assign] #6413 justification -1: 
[assign] #2584 justification -1: 
[assign] #2595 justification -1: 
[assign] #6415 justification -1: 
[assign] #2611 justification -1: 
[assign] #2618 justification -1: 
[assign] #2623 justification -1: 
[assign] #2630 justification -1: 
[assign] #2639 justification -1: 
[assign] #2645 justification -1: 
[assign] #5885 justification -1: 
[assign] #2664 justification -1: 
[assign] #5560 justification -1: 
[assign] #5543 justification -1: 
[assign] #2705 justification -1: 
[assign] #2678 justification -1: 
[assign] #2728 justification -1: 
[assign] #2736 justification -1: 
[assign] #2743 justification -1: 
[assign] #2750 justification -1: 
[assign] #2759 justification -1: 
[assign] #2766 justification -1: 
[assign] #2773 justification -1: 
[assign] #2779 justification -1: 
[assign] #1642 justification -1: 
[assign] #12700 justification -1: 
[assign] #12705 justification -1: 
[assign] #2822 justification -1: 
[assign] #2829 justification -1: 
[assign] #2836 justification -1: 
[assign] #2846 justification -1: 
[assign] #2853 justification -1: 
[assign] #12710 justification -1: 
[assign] #12716 justification -1: 
[assign] #12720 justification -1: 
[assign] #12724 justification -1: 
[assign] #2902 justification -1: 
[assign] #2909 justification -1: 
[assign] #12733 justification -1: 
[assign] #12738 justification -1: 
[assign] #2946 justification -1: 
[assign] #12742 justification -1: 
[assign] #12746 justification -1: 
[assign] #2971 justification -1: 
[assign] #2978 justification -1: 
[assign] #12751 justification -1: 
[assign] #12755 justification -1: 
[assign] #3003 justification -1: 
[assign] #12759 justification -1: 
[assign] #12764 justification -1: 
[assign] #12768 justification -1: 
[assign] #3036 justification -1: 
[assign] #12772 justification -1: 
[assign] #12777 justification -1: 
[assign] #12781 justification -1: 
[assign] #12786 justification -1: 
[assign] #12790 justification -1: 
[assign] #12794 justification -1: 
[assign] #12796 justification -1: 
[assign] #12800 justification -1: 
[assign] #12804 justification -1: 
[assign] #3118 justification -1: 
[assign] #3125 justification -1: 
[assign] #12809 justification -1: 
[assign] #12813 justification -1: 
[assign] #12842 justification -1: 
[assign] #3198 justification -1: 
[assign] #12854 justification -1: 
[assign] #12867 justification -1: 
[assign] #12874 justification -1: 
[assign] #12878 justification -1: 
[assign] #12880 justification -1: 
[assign] #12885 justification -1: 
[assign] #12889 justification -1: 
[assign] #12894 justification -1: 
[assign] #12899 justification -1: 
[assign] #12904 justification -1: 
[assign] #12909 justification -1: 
[assign] #12914 justification -1: 
[assign] #12919 justification -1: 
[assign] #12924 justification -1: 
[assign] #12929 justification -1: 
[assign] #12933 justification -1: 
[assign] #12937 justification -1: 
[assign] #12942 justification -1: 
[assign] #12944 justification -1: 
[assign] #3408 justification -1: 
[assign] #3413 justification -1: 
[assign] #3418 justification -1: 
[assign] #3422 justification -1: 
[assign] #3431 justification -1: 
[assign] #3438 justification -1: 
[assign] #3446 justification -1: 
[assign] #3454 justification -1: 
[assign] #3462 justification -1: 
[assign] #3469 justification -1: 
[assign] #12946 justification -1: 
[assign] #12948 justification -1: 
[assign] #12950 justification -1: 
[assign] #12952 justification -1: 
[assign] #12955 justification -1: 
[assign] #12957 justification -1: 
[assign] #3525 justification -1: 
[assign] #3532 justification -1: 
[attach-enode] #1528 0
[attach-enode] #3533 0
[attach-enode] #3534 0
[assign] #3534 justification -1: 
[attach-enode] #3535 0
[attach-enode] #3536 0
[assign] #3536 justification -1: 
[attach-enode] #135 0
[attach-enode] #3537 0
[attach-enode] #3538 0
[assign] #3538 justification -1: 
[attach-enode] #3539 0
[attach-enode] #3540 0
[assign] #3540 justification -1: 
[attach-enode] #1707 0
[attach-enode] #3541 0
[attach-enode] #3542 0
[assign] #3542 justification -1: 
[attach-enode] #3543 0
[attach-enode] #3544 0
[assign] #3544 justification -1: 
[attach-enode] #1728 0
[attach-enode] #3545 0
[attach-enode] #3546 0
[assign] #3546 justification -1: 
[attach-enode] #3547 0
[attach-enode] #3548 0
[assign] #3548 justification -1: 
[attach-enode] #1749 0
[attach-enode] #3549 0
[attach-enode] #3550 0
[assign] #3550 justification -1: 
[attach-enode] #3551 0
[attach-enode] #3552 0
[assign] #3552 justification -1: 
[attach-enode] #1770 0
[attach-enode] #3553 0
[attach-enode] #3554 0
[assign] #3554 justification -1: 
[attach-enode] #3555 0
[attach-enode] #3556 0
[assign] #3556 justification -1: 
[attach-enode] #1791 0
[attach-enode] #3557 0
[attach-enode] #3558 0
[assign] #3558 justification -1: 
[attach-enode] #3559 0
[attach-enode] #3560 0
[assign] #3560 justification -1: 
[attach-enode] #3561 0
[attach-enode] #3562 0
[assign] #3562 justification -1: 
[attach-enode] #3563 0
[attach-enode] #3564 0
[assign] #3564 justification -1: 
[attach-enode] #1812 0
[attach-enode] #3565 0
[attach-enode] #3566 0
[assign] #3566 justification -1: 
[attach-enode] #3567 0
[attach-enode] #3568 0
[assign] #3568 justification -1: 
[attach-enode] #1833 0
[attach-enode] #3569 0
[attach-enode] #3570 0
[assign] #3570 justification -1: 
[attach-enode] #3571 0
[attach-enode] #3572 0
[assign] #3572 justification -1: 
[attach-enode] #1854 0
[attach-enode] #3573 0
[attach-enode] #3574 0
[assign] #3574 justification -1: 
[attach-enode] #3575 0
[attach-enode] #3576 0
[assign] #3576 justification -1: 
[attach-enode] #1875 0
[attach-enode] #3577 0
[attach-enode] #3578 0
[assign] #3578 justification -1: 
[attach-enode] #3579 0
[attach-enode] #3580 0
[assign] #3580 justification -1: 
[attach-enode] #1896 0
[attach-enode] #3581 0
[attach-enode] #3582 0
[assign] #3582 justification -1: 
[attach-enode] #3583 0
[attach-enode] #3584 0
[assign] #3584 justification -1: 
[attach-enode] #211 0
[attach-enode] #3585 0
[attach-enode] #3586 0
[assign] #3586 justification -1: 
[attach-enode] #3587 0
[attach-enode] #3588 0
[assign] #3588 justification -1: 
[assign] #12959 justification -1: 
[assign] #12961 justification -1: 
[assign] #12963 justification -1: 
[assign] #12965 justification -1: 
[assign] #3632 justification -1: 
[assign] #3640 justification -1: 
[assign] #12967 justification -1: 
[assign] #12969 justification -1: 
[attach-enode] #3658 0
[attach-enode] #3659 0
[attach-enode] #3660 0
[assign] #3660 justification -1: 
[attach-enode] #3661 0
[attach-enode] #3662 0
[assign] #3662 justification -1: 
[attach-enode] #3663 0
[attach-enode] #3664 0
[assign] #3664 justification -1: 
[attach-enode] #3665 0
[attach-enode] #3666 0
[assign] #3666 justification -1: 
[attach-enode] #3667 0
[attach-enode] #3668 0
[assign] #3668 justification -1: 
[attach-enode] #3669 0
[attach-enode] #3670 0
[assign] #3670 justification -1: 
[attach-enode] #3671 0
[attach-enode] #3672 0
[assign] #3672 justification -1: 
[attach-enode] #3673 0
[attach-enode] #3674 0
[assign] #3674 justification -1: 
[attach-enode] #3675 0
[attach-enode] #3676 0
[assign] #3676 justification -1: 
[attach-enode] #3677 0
[attach-enode] #3678 0
[assign] #3678 justification -1: 
[attach-enode] #3679 0
[attach-enode] #3680 0
[assign] #3680 justification -1: 
[attach-enode] #3681 0
[attach-enode] #3682 0
[assign] #3682 justification -1: 
[attach-enode] #3683 0
[attach-enode] #3684 0
[assign] #3684 justification -1: 
[attach-enode] #3685 0
[attach-enode] #3686 0
[assign] #3686 justification -1: 
[attach-enode] #3687 0
[attach-enode] #3688 0
[assign] #3688 justification -1: 
[attach-enode] #3689 0
[attach-enode] #3690 0
[assign] #3690 justification -1: 
[attach-enode] #3691 0
[attach-enode] #3692 0
[assign] #3692 justification -1: 
[attach-enode] #3693 0
[attach-enode] #3694 0
[assign] #3694 justification -1: 
[attach-enode] #3695 0
[attach-enode] #3696 0
[assign] #3696 justification -1: 
[attach-enode] #3697 0
[attach-enode] #3698 0
[assign] #3698 justification -1: 
[attach-enode] #3699 0
[attach-enode] #3700 0
[assign] #3700 justification -1: 
[attach-enode] #3701 0
[attach-enode] #3702 0
[assign] #3702 justification -1: 
[attach-enode] #3703 0
[attach-enode] #3704 0
[assign] #3704 justification -1: 
[attach-enode] #3705 0
[attach-enode] #3706 0
[assign] #3706 justification -1: 
[attach-enode] #3707 0
[attach-enode] #3708 0
[assign] #3708 justification -1: 
[attach-enode] #3709 0
[attach-enode] #3710 0
[assign] #3710 justification -1: 
[attach-enode] #3711 0
[attach-enode] #3712 0
[assign] #3712 justification -1: 
[attach-enode] #3713 0
[attach-enode] #3714 0
[assign] #3714 justification -1: 
[attach-enode] #3715 0
[attach-enode] #3716 0
[assign] #3716 justification -1: 
[attach-enode] #3717 0
[attach-enode] #3718 0
[assign] #3718 justification -1: 
[attach-enode] #3719 0
[attach-enode] #3720 0
[assign] #3720 justification -1: 
[attach-enode] #3721 0
[attach-enode] #3722 0
[assign] #3722 justification -1: 
[attach-enode] #3723 0
[attach-enode] #3724 0
[assign] #3724 justification -1: 
[attach-enode] #3725 0
[attach-enode] #3726 0
[assign] #3726 justification -1: 
[attach-enode] #3727 0
[attach-enode] #3728 0
[assign] #3728 justification -1: 
[attach-enode] #3729 0
[attach-enode] #3730 0
[assign] #3730 justification -1: 
[attach-enode] #3731 0
[attach-enode] #3732 0
[assign] #3732 justification -1: 
[attach-enode] #3733 0
[attach-enode] #3734 0
[assign] #3734 justification -1: 
[attach-enode] #3735 0
[attach-enode] #3736 0
[assign] #3736 justification -1: 
[attach-enode] #3737 0
[attach-enode] #3738 0
[assign] #3738 justification -1: 
[attach-enode] #3739 0
[attach-enode] #3740 0
[assign] #3740 justification -1: 
[attach-enode] #3741 0
[attach-enode] #3742 0
[assign] #3742 justification -1: 
[attach-enode] #3743 0
[attach-enode] #3744 0
[assign] #3744 justification -1: 
[attach-enode] #3745 0
[attach-enode] #3746 0
[assign] #3746 justification -1: 
[attach-enode] #3747 0
[attach-enode] #3748 0
[assign] #3748 justification -1: 
[attach-enode] #3749 0
[attach-enode] #3750 0
[assign] #3750 justification -1: 
[attach-enode] #3751 0
[attach-enode] #3752 0
[assign] #3752 justification -1: 
[attach-enode] #3753 0
[attach-enode] #3754 0
[assign] #3754 justification -1: 
[attach-enode] #3755 0
[attach-enode] #3756 0
[assign] #3756 justification -1: 
[attach-enode] #3757 0
[attach-enode] #3758 0
[assign] #3758 justification -1: 
[attach-enode] #3759 0
[attach-enode] #3760 0
[assign] #3760 justification -1: 
[attach-enode] #3761 0
[attach-enode] #3762 0
[assign] #3762 justification -1: 
[attach-enode] #3763 0
[attach-enode] #3764 0
[assign] #3764 justification -1: 
[attach-enode] #3765 0
[attach-enode] #3766 0
[assign] #3766 justification -1: 
[attach-enode] #3767 0
[attach-enode] #3768 0
[assign] #3768 justification -1: 
[attach-enode] #3769 0
[attach-enode] #3770 0
[assign] #3770 justification -1: 
[attach-enode] #3771 0
[attach-enode] #3772 0
[assign] #3772 justification -1: 
[attach-enode] #3773 0
[attach-enode] #3774 0
[assign] #3774 justification -1: 
[attach-enode] #3775 0
[attach-enode] #3776 0
[assign] #3776 justification -1: 
[attach-enode] #3777 0
[attach-enode] #3778 0
[assign] #3778 justification -1: 
[attach-enode] #3779 0
[attach-enode] #3780 0
[assign] #3780 justification -1: 
[attach-enode] #3781 0
[attach-enode] #3782 0
[assign] #3782 justification -1: 
[attach-enode] #3783 0
[attach-enode] #3784 0
[assign] #3784 justification -1: 
[attach-enode] #3785 0
[attach-enode] #3786 0
[assign] #3786 justification -1: 
[attach-enode] #3787 0
[attach-enode] #3788 0
[assign] #3788 justification -1: 
[attach-enode] #3789 0
[attach-enode] #3790 0
[assign] #3790 justification -1: 
[attach-enode] #3791 0
[attach-enode] #3792 0
[assign] #3792 justification -1: 
[attach-enode] #3793 0
[attach-enode] #3794 0
[assign] #3794 justification -1: 
[attach-enode] #3795 0
[attach-enode] #3796 0
[assign] #3796 justification -1: 
[attach-enode] #3797 0
[attach-enode] #3798 0
[assign] #3798 justification -1: 
[attach-enode] #3799 0
[attach-enode] #3800 0
[assign] #3800 justification -1: 
[attach-enode] #3801 0
[attach-enode] #3802 0
[assign] #3802 justification -1: 
[attach-enode] #3803 0
[attach-enode] #3804 0
[assign] #3804 justification -1: 
[attach-enode] #3805 0
[attach-enode] #3806 0
[assign] #3806 justification -1: 
[attach-enode] #3807 0
[attach-enode] #3808 0
[assign] #3808 justification -1: 
[attach-enode] #3809 0
[attach-enode] #3810 0
[assign] #3810 justification -1: 
[attach-enode] #3811 0
[attach-enode] #3812 0
[assign] #3812 justification -1: 
[attach-enode] #3813 0
[attach-enode] #3814 0
[assign] #3814 justification -1: 
[attach-enode] #3815 0
[attach-enode] #3816 0
[assign] #3816 justification -1: 
[attach-enode] #3817 0
[attach-enode] #3818 0
[assign] #3818 justification -1: 
[attach-enode] #3819 0
[attach-enode] #3820 0
[assign] #3820 justification -1: 
[attach-enode] #3821 0
[attach-enode] #3822 0
[assign] #3822 justification -1: 
[attach-enode] #3823 0
[attach-enode] #3824 0
[assign] #3824 justification -1: 
[attach-enode] #3825 0
[attach-enode] #3826 0
[assign] #3826 justification -1: 
[attach-enode] #3827 0
[attach-enode] #3828 0
[assign] #3828 justification -1: 
[attach-enode] #3829 0
[attach-enode] #3830 0
[assign] #3830 justification -1: 
[attach-enode] #3831 0
[attach-enode] #3832 0
[assign] #3832 justification -1: 
[attach-enode] #3833 0
[attach-enode] #3834 0
[assign] #3834 justification -1: 
[attach-enode] #3835 0
[attach-enode] #3836 0
[assign] #3836 justification -1: 
[attach-enode] #3837 0
[attach-enode] #3838 0
[assign] #3838 justification -1: 
[attach-enode] #3839 0
[attach-enode] #3840 0
[assign] #3840 justification -1: 
[attach-enode] #3841 0
[attach-enode] #3842 0
[assign] #3842 justification -1: 
[attach-enode] #3843 0
[attach-enode] #3844 0
[assign] #3844 justification -1: 
[attach-enode] #3845 0
[attach-enode] #3846 0
[assign] #3846 justification -1: 
[attach-enode] #3847 0
[attach-enode] #3848 0
[assign] #3848 justification -1: 
[attach-enode] #3849 0
[attach-enode] #3850 0
[assign] #3850 justification -1: 
[attach-enode] #1976 0
[attach-enode] #3851 0
[attach-enode] #3852 0
[assign] #3852 justification -1: 
[attach-enode] #3853 0
[attach-enode] #3854 0
[assign] #3854 justification -1: 
[attach-enode] #184 0
[attach-enode] #3855 0
[attach-enode] #3856 0
[assign] #3856 justification -1: 
[attach-enode] #3857 0
[attach-enode] #3858 0
[assign] #3858 justification -1: 
[attach-enode] #195 0
[attach-enode] #3859 0
[attach-enode] #3860 0
[assign] #3860 justification -1: 
[attach-enode] #3861 0
[attach-enode] #3862 0
[assign] #3862 justification -1: 
[attach-enode] #3863 0
[attach-enode] #3864 0
[assign] #3864 justification -1: 
[attach-enode] #3865 0
[attach-enode] #3866 0
[assign] #3866 justification -1: 
[attach-enode] #3867 0
[attach-enode] #3868 0
[assign] #3868 justification -1: 
[attach-enode] #3869 0
[attach-enode] #3870 0
[assign] #3870 justification -1: 
[attach-enode] #3871 0
[attach-enode] #3872 0
[assign] #3872 justification -1: 
[attach-enode] #3873 0
[attach-enode] #3874 0
[assign] #3874 justification -1: 
[attach-enode] #3875 0
[attach-enode] #3876 0
[assign] #3876 justification -1: 
[attach-enode] #3877 0
[attach-enode] #3878 0
[assign] #3878 justification -1: 
[attach-enode] #3879 0
[attach-enode] #3880 0
[assign] #3880 justification -1: 
[attach-enode] #3881 0
[attach-enode] #3882 0
[assign] #3882 justification -1: 
[attach-enode] #3883 0
[attach-enode] #3884 0
[assign] #3884 justification -1: 
[attach-enode] #3885 0
[attach-enode] #3886 0
[assign] #3886 justification -1: 
[attach-enode] #3887 0
[attach-enode] #3888 0
[assign] #3888 justification -1: 
[attach-enode] #3889 0
[attach-enode] #3890 0
[assign] #3890 justification -1: 
[attach-enode] #3891 0
[attach-enode] #3892 0
[assign] #3892 justification -1: 
[attach-enode] #3893 0
[attach-enode] #3894 0
[assign] #3894 justification -1: 
[attach-enode] #3895 0
[attach-enode] #3896 0
[assign] #3896 justification -1: 
[attach-enode] #3897 0
[attach-enode] #3898 0
[assign] #3898 justification -1: 
[attach-enode] #3899 0
[attach-enode] #3900 0
[assign] #3900 justification -1: 
[attach-enode] #3901 0
[attach-enode] #3902 0
[assign] #3902 justification -1: 
[attach-enode] #3903 0
[attach-enode] #3904 0
[assign] #3904 justification -1: 
[attach-enode] #3905 0
[attach-enode] #3906 0
[assign] #3906 justification -1: 
[attach-enode] #3907 0
[attach-enode] #3908 0
[assign] #3908 justification -1: 
[attach-enode] #3909 0
[attach-enode] #3910 0
[assign] #3910 justification -1: 
[attach-enode] #3911 0
[attach-enode] #3912 0
[assign] #3912 justification -1: 
[attach-enode] #3913 0
[attach-enode] #3914 0
[assign] #3914 justification -1: 
[attach-enode] #3915 0
[attach-enode] #3916 0
[assign] #3916 justification -1: 
[attach-enode] #3917 0
[attach-enode] #3918 0
[assign] #3918 justification -1: 
[attach-enode] #3919 0
[attach-enode] #3920 0
[assign] #3920 justification -1: 
[attach-enode] #3921 0
[attach-enode] #3922 0
[assign] #3922 justification -1: 
[attach-enode] #3923 0
[attach-enode] #3924 0
[assign] #3924 justification -1: 
[attach-enode] #3925 0
[attach-enode] #3926 0
[assign] #3926 justification -1: 
[attach-enode] #3927 0
[attach-enode] #3928 0
[assign] #3928 justification -1: 
[attach-enode] #3929 0
[attach-enode] #3930 0
[assign] #3930 justification -1: 
[attach-enode] #3931 0
[attach-enode] #3932 0
[assign] #3932 justification -1: 
[attach-enode] #3933 0
[attach-enode] #3934 0
[assign] #3934 justification -1: 
[attach-enode] #3935 0
[attach-enode] #3936 0
[assign] #3936 justification -1: 
[attach-enode] #3937 0
[attach-enode] #3938 0
[assign] #3938 justification -1: 
[attach-enode] #3939 0
[attach-enode] #3940 0
[assign] #3940 justification -1: 
[attach-enode] #3941 0
[attach-enode] #3942 0
[assign] #3942 justification -1: 
[attach-enode] #3943 0
[attach-enode] #3944 0
[assign] #3944 justification -1: 
[attach-enode] #3945 0
[attach-enode] #3946 0
[assign] #3946 justification -1: 
[attach-enode] #3947 0
[attach-enode] #3948 0
[assign] #3948 justification -1: 
[attach-enode] #3949 0
[attach-enode] #3950 0
[assign] #3950 justification -1: 
[attach-enode] #3951 0
[attach-enode] #3952 0
[assign] #3952 justification -1: 
[attach-enode] #3953 0
[attach-enode] #3954 0
[assign] #3954 justification -1: 
[attach-enode] #3955 0
[attach-enode] #3956 0
[assign] #3956 justification -1: 
[attach-enode] #3957 0
[attach-enode] #3958 0
[assign] #3958 justification -1: 
[attach-enode] #3959 0
[attach-enode] #3960 0
[assign] #3960 justification -1: 
[attach-enode] #3961 0
[attach-enode] #3962 0
[assign] #3962 justification -1: 
[attach-enode] #3963 0
[attach-enode] #3964 0
[assign] #3964 justification -1: 
[attach-enode] #3965 0
[attach-enode] #3966 0
[assign] #3966 justification -1: 
[attach-enode] #3967 0
[attach-enode] #3968 0
[assign] #3968 justification -1: 
[attach-enode] #3969 0
[attach-enode] #3970 0
[assign] #3970 justification -1: 
[attach-enode] #3971 0
[attach-enode] #3972 0
[assign] #3972 justification -1: 
[attach-enode] #3973 0
[attach-enode] #3974 0
[assign] #3974 justification -1: 
[attach-enode] #3975 0
[attach-enode] #3976 0
[assign] #3976 justification -1: 
[attach-enode] #3977 0
[attach-enode] #3978 0
[assign] #3978 justification -1: 
[attach-enode] #3979 0
[attach-enode] #3980 0
[assign] #3980 justification -1: 
[attach-enode] #3981 0
[attach-enode] #3982 0
[assign] #3982 justification -1: 
[attach-enode] #3983 0
[attach-enode] #3984 0
[assign] #3984 justification -1: 
[attach-enode] #3985 0
[attach-enode] #3986 0
[assign] #3986 justification -1: 
[attach-enode] #3987 0
[attach-enode] #3988 0
[assign] #3988 justification -1: 
[attach-enode] #3989 0
[attach-enode] #3990 0
[assign] #3990 justification -1: 
[attach-enode] #3991 0
[attach-enode] #3992 0
[assign] #3992 justification -1: 
[attach-enode] #3993 0
[attach-enode] #3994 0
[assign] #3994 justification -1: 
[attach-enode] #3995 0
[attach-enode] #3996 0
[assign] #3996 justification -1: 
[attach-enode] #3997 0
[attach-enode] #3998 0
[assign] #3998 justification -1: 
[attach-enode] #3999 0
[attach-enode] #4000 0
[assign] #4000 justification -1: 
[attach-enode] #4001 0
[attach-enode] #4002 0
[assign] #4002 justification -1: 
[attach-enode] #4003 0
[attach-enode] #4004 0
[assign] #4004 justification -1: 
[attach-enode] #4005 0
[attach-enode] #4006 0
[assign] #4006 justification -1: 
[attach-enode] #4007 0
[attach-enode] #4008 0
[assign] #4008 justification -1: 
[attach-enode] #4009 0
[attach-enode] #4010 0
[assign] #4010 justification -1: 
[attach-enode] #4011 0
[attach-enode] #4012 0
[assign] #4012 justification -1: 
[attach-enode] #4013 0
[attach-enode] #4014 0
[assign] #4014 justification -1: 
[attach-enode] #4015 0
[attach-enode] #4016 0
[assign] #4016 justification -1: 
[attach-enode] #4017 0
[attach-enode] #4018 0
[assign] #4018 justification -1: 
[attach-enode] #4019 0
[attach-enode] #4020 0
[assign] #4020 justification -1: 
[attach-enode] #4021 0
[attach-enode] #4022 0
[assign] #4022 justification -1: 
[attach-enode] #4023 0
[attach-enode] #4024 0
[assign] #4024 justification -1: 
[attach-enode] #4025 0
[attach-enode] #4026 0
[assign] #4026 justification -1: 
[attach-enode] #4027 0
[attach-enode] #4028 0
[assign] #4028 justification -1: 
[attach-enode] #4029 0
[attach-enode] #4030 0
[assign] #4030 justification -1: 
[attach-enode] #4031 0
[attach-enode] #4032 0
[assign] #4032 justification -1: 
[attach-enode] #4033 0
[attach-enode] #4034 0
[assign] #4034 justification -1: 
[attach-enode] #4035 0
[attach-enode] #4036 0
[assign] #4036 justification -1: 
[attach-enode] #4037 0
[attach-enode] #4038 0
[assign] #4038 justification -1: 
[attach-enode] #4039 0
[attach-enode] #4040 0
[assign] #4040 justification -1: 
[attach-enode] #4041 0
[attach-enode] #4042 0
[assign] #4042 justification -1: 
[attach-enode] #4043 0
[attach-enode] #4044 0
[assign] #4044 justification -1: 
[attach-enode] #4045 0
[attach-enode] #4046 0
[assign] #4046 justification -1: 
[attach-enode] #4047 0
[attach-enode] #4048 0
[assign] #4048 justification -1: 
[attach-enode] #4049 0
[attach-enode] #4050 0
[assign] #4050 justification -1: 
[attach-enode] #4051 0
[attach-enode] #4052 0
[assign] #4052 justification -1: 
[attach-enode] #4053 0
[attach-enode] #4054 0
[assign] #4054 justification -1: 
[attach-enode] #4055 0
[attach-enode] #4056 0
[assign] #4056 justification -1: 
[attach-enode] #4057 0
[attach-enode] #4058 0
[assign] #4058 justification -1: 
[attach-enode] #4059 0
[attach-enode] #4060 0
[assign] #4060 justification -1: 
[attach-enode] #4061 0
[attach-enode] #4062 0
[assign] #4062 justification -1: 
[attach-enode] #4063 0
[attach-enode] #4064 0
[assign] #4064 justification -1: 
[attach-enode] #4065 0
[attach-enode] #4066 0
[assign] #4066 justification -1: 
[attach-enode] #4067 0
[attach-enode] #4068 0
[assign] #4068 justification -1: 
[attach-enode] #4069 0
[attach-enode] #4070 0
[assign] #4070 justification -1: 
[attach-enode] #4071 0
[attach-enode] #4072 0
[assign] #4072 justification -1: 
[attach-enode] #4073 0
[attach-enode] #4074 0
[assign] #4074 justification -1: 
[attach-enode] #4075 0
[attach-enode] #4076 0
[assign] #4076 justification -1: 
[attach-enode] #4077 0
[attach-enode] #4078 0
[assign] #4078 justification -1: 
[attach-enode] #4079 0
[attach-enode] #4080 0
[assign] #4080 justification -1: 
[attach-enode] #4081 0
[attach-enode] #4082 0
[assign] #4082 justification -1: 
[attach-enode] #4083 0
[attach-enode] #4084 0
[assign] #4084 justification -1: 
[attach-enode] #4085 0
[attach-enode] #4086 0
[assign] #4086 justification -1: 
[attach-enode] #4087 0
[attach-enode] #4088 0
[assign] #4088 justification -1: 
[attach-enode] #4089 0
[attach-enode] #4090 0
[assign] #4090 justification -1: 
[attach-enode] #4091 0
[attach-enode] #4092 0
[assign] #4092 justification -1: 
[attach-enode] #4093 0
[attach-enode] #4094 0
[assign] #4094 justification -1: 
[attach-enode] #4095 0
[attach-enode] #4096 0
[assign] #4096 justification -1: 
[attach-enode] #4097 0
[attach-enode] #4098 0
[assign] #4098 justification -1: 
[attach-enode] #4099 0
[attach-enode] #4100 0
[assign] #4100 justification -1: 
[attach-enode] #4101 0
[attach-enode] #4102 0
[assign] #4102 justification -1: 
[attach-enode] #4103 0
[attach-enode] #4104 0
[assign] #4104 justification -1: 
[attach-enode] #4105 0
[attach-enode] #4106 0
[assign] #4106 justification -1: 
[attach-enode] #4107 0
[attach-enode] #4108 0
[assign] #4108 justification -1: 
[attach-enode] #4109 0
[attach-enode] #4110 0
[assign] #4110 justification -1: 
[attach-enode] #4111 0
[attach-enode] #4112 0
[assign] #4112 justification -1: 
[attach-enode] #4113 0
[attach-enode] #4114 0
[assign] #4114 justification -1: 
[attach-enode] #4115 0
[attach-enode] #4116 0
[assign] #4116 justification -1: 
[attach-enode] #4117 0
[attach-enode] #4118 0
[assign] #4118 justification -1: 
[attach-enode] #4119 0
[attach-enode] #4120 0
[assign] #4120 justification -1: 
[attach-enode] #4121 0
[attach-enode] #4122 0
[assign] #4122 justification -1: 
[attach-enode] #4123 0
[attach-enode] #4124 0
[assign] #4124 justification -1: 
[attach-enode] #4125 0
[attach-enode] #4126 0
[assign] #4126 justification -1: 
[attach-enode] #4127 0
[attach-enode] #4128 0
[assign] #4128 justification -1: 
[attach-enode] #4129 0
[attach-enode] #4130 0
[assign] #4130 justification -1: 
[attach-enode] #4131 0
[attach-enode] #4132 0
[assign] #4132 justification -1: 
[attach-enode] #4133 0
[attach-enode] #4134 0
[assign] #4134 justification -1: 
[attach-enode] #4135 0
[attach-enode] #4136 0
[assign] #4136 justification -1: 
[attach-enode] #4137 0
[attach-enode] #4138 0
[assign] #4138 justification -1: 
[attach-enode] #4139 0
[attach-enode] #4140 0
[assign] #4140 justification -1: 
[attach-enode] #4141 0
[attach-enode] #4142 0
[assign] #4142 justification -1: 
[attach-enode] #4143 0
[attach-enode] #4144 0
[assign] #4144 justification -1: 
[attach-enode] #4145 0
[attach-enode] #4146 0
[assign] #4146 justification -1: 
[attach-enode] #4147 0
[attach-enode] #4148 0
[assign] #4148 justification -1: 
[attach-enode] #4149 0
[attach-enode] #4150 0
[assign] #4150 justification -1: 
[attach-enode] #4151 0
[attach-enode] #4152 0
[assign] #4152 justification -1: 
[attach-enode] #4153 0
[attach-enode] #4154 0
[assign] #4154 justification -1: 
[attach-enode] #4155 0
[attach-enode] #4156 0
[assign] #4156 justification -1: 
[attach-enode] #4157 0
[attach-enode] #4158 0
[assign] #4158 justification -1: 
[attach-enode] #4159 0
[attach-enode] #4160 0
[assign] #4160 justification -1: 
[attach-enode] #4161 0
[attach-enode] #4162 0
[assign] #4162 justification -1: 
[attach-enode] #4163 0
[attach-enode] #4164 0
[assign] #4164 justification -1: 
[attach-enode] #4165 0
[attach-enode] #4166 0
[assign] #4166 justification -1: 
[attach-enode] #4167 0
[attach-enode] #4168 0
[assign] #4168 justification -1: 
[attach-enode] #4169 0
[attach-enode] #4170 0
[assign] #4170 justification -1: 
[attach-enode] #4171 0
[attach-enode] #4172 0
[assign] #4172 justification -1: 
[attach-enode] #4173 0
[attach-enode] #4174 0
[assign] #4174 justification -1: 
[attach-enode] #4175 0
[attach-enode] #4176 0
[assign] #4176 justification -1: 
[attach-enode] #4177 0
[attach-enode] #4178 0
[assign] #4178 justification -1: 
[attach-enode] #4179 0
[attach-enode] #4180 0
[assign] #4180 justification -1: 
[attach-enode] #4181 0
[attach-enode] #4182 0
[assign] #4182 justification -1: 
[attach-enode] #4183 0
[attach-enode] #4184 0
[assign] #4184 justification -1: 
[attach-enode] #4185 0
[attach-enode] #4186 0
[assign] #4186 justification -1: 
[attach-enode] #4187 0
[attach-enode] #4188 0
[assign] #4188 justification -1: 
[attach-enode] #4189 0
[attach-enode] #4190 0
[assign] #4190 justification -1: 
[attach-enode] #4191 0
[attach-enode] #4192 0
[assign] #4192 justification -1: 
[attach-enode] #4193 0
[attach-enode] #4194 0
[assign] #4194 justification -1: 
[attach-enode] #4195 0
[attach-enode] #4196 0
[assign] #4196 justification -1: 
[attach-enode] #4197 0
[attach-enode] #4198 0
[assign] #4198 justification -1: 
[attach-enode] #4199 0
[attach-enode] #4200 0
[assign] #4200 justification -1: 
[attach-enode] #4201 0
[attach-enode] #4202 0
[assign] #4202 justification -1: 
[attach-enode] #4203 0
[attach-enode] #4204 0
[assign] #4204 justification -1: 
[attach-enode] #4205 0
[attach-enode] #4206 0
[assign] #4206 justification -1: 
[attach-enode] #4207 0
[attach-enode] #4208 0
[assign] #4208 justification -1: 
[attach-enode] #4209 0
[attach-enode] #4210 0
[assign] #4210 justification -1: 
[attach-enode] #4211 0
[attach-enode] #4212 0
[assign] #4212 justification -1: 
[attach-enode] #4213 0
[attach-enode] #4214 0
[assign] #4214 justification -1: 
[attach-enode] #4215 0
[attach-enode] #4216 0
[assign] #4216 justification -1: 
[attach-enode] #4217 0
[attach-enode] #4218 0
[assign] #4218 justification -1: 
[attach-enode] #4219 0
[attach-enode] #4220 0
[assign] #4220 justification -1: 
[attach-enode] #4221 0
[attach-enode] #4222 0
[assign] #4222 justification -1: 
[attach-enode] #4223 0
[attach-enode] #4224 0
[assign] #4224 justification -1: 
[attach-enode] #4225 0
[attach-enode] #4226 0
[assign] #4226 justification -1: 
[attach-enode] #4227 0
[attach-enode] #4228 0
[assign] #4228 justification -1: 
[attach-enode] #4229 0
[attach-enode] #4230 0
[assign] #4230 justification -1: 
[attach-enode] #4231 0
[attach-enode] #4232 0
[assign] #4232 justification -1: 
[attach-enode] #4233 0
[attach-enode] #4234 0
[assign] #4234 justification -1: 
[attach-enode] #4235 0
[attach-enode] #4236 0
[assign] #4236 justification -1: 
[attach-enode] #4237 0
[attach-enode] #4238 0
[assign] #4238 justification -1: 
[attach-enode] #4239 0
[attach-enode] #4240 0
[assign] #4240 justification -1: 
[attach-enode] #4241 0
[attach-enode] #4242 0
[assign] #4242 justification -1: 
[attach-enode] #4243 0
[attach-enode] #4244 0
[assign] #4244 justification -1: 
[attach-enode] #4245 0
[attach-enode] #4246 0
[assign] #4246 justification -1: 
[attach-enode] #4247 0
[attach-enode] #4248 0
[assign] #4248 justification -1: 
[attach-enode] #4249 0
[attach-enode] #4250 0
[assign] #4250 justification -1: 
[attach-enode] #4251 0
[attach-enode] #4252 0
[assign] #4252 justification -1: 
[attach-enode] #4253 0
[attach-enode] #4254 0
[assign] #4254 justification -1: 
[attach-enode] #4255 0
[attach-enode] #4256 0
[assign] #4256 justification -1: 
[attach-enode] #4257 0
[attach-enode] #4258 0
[assign] #4258 justification -1: 
[attach-enode] #4259 0
[attach-enode] #4260 0
[assign] #4260 justification -1: 
[attach-enode] #4261 0
[attach-enode] #4262 0
[assign] #4262 justification -1: 
[attach-enode] #4263 0
[attach-enode] #4264 0
[assign] #4264 justification -1: 
[attach-enode] #4265 0
[attach-enode] #4266 0
[assign] #4266 justification -1: 
[attach-enode] #4267 0
[attach-enode] #4268 0
[assign] #4268 justification -1: 
[attach-enode] #4269 0
[attach-enode] #4270 0
[assign] #4270 justification -1: 
[attach-enode] #4271 0
[attach-enode] #4272 0
[assign] #4272 justification -1: 
[attach-enode] #4273 0
[attach-enode] #4274 0
[assign] #4274 justification -1: 
[attach-enode] #1708 0
[attach-enode] #4275 0
[attach-enode] #4276 0
[assign] #4276 justification -1: 
[attach-enode] #4277 0
[attach-enode] #4278 0
[assign] #4278 justification -1: 
[attach-enode] #4279 0
[attach-enode] #4280 0
[assign] #4280 justification -1: 
[attach-enode] #4281 0
[attach-enode] #4282 0
[assign] #4282 justification -1: 
[attach-enode] #4283 0
[attach-enode] #4284 0
[assign] #4284 justification -1: 
[attach-enode] #4285 0
[attach-enode] #4286 0
[assign] #4286 justification -1: 
[attach-enode] #1729 0
[attach-enode] #4287 0
[attach-enode] #4288 0
[assign] #4288 justification -1: 
[attach-enode] #4289 0
[attach-enode] #4290 0
[assign] #4290 justification -1: 
[attach-enode] #4291 0
[attach-enode] #4292 0
[assign] #4292 justification -1: 
[attach-enode] #4293 0
[attach-enode] #4294 0
[assign] #4294 justification -1: 
[attach-enode] #4295 0
[attach-enode] #4296 0
[assign] #4296 justification -1: 
[attach-enode] #4297 0
[attach-enode] #4298 0
[assign] #4298 justification -1: 
[attach-enode] #1750 0
[attach-enode] #4299 0
[attach-enode] #4300 0
[assign] #4300 justification -1: 
[attach-enode] #4301 0
[attach-enode] #4302 0
[assign] #4302 justification -1: 
[attach-enode] #4303 0
[attach-enode] #4304 0
[assign] #4304 justification -1: 
[attach-enode] #4305 0
[attach-enode] #4306 0
[assign] #4306 justification -1: 
[attach-enode] #4307 0
[attach-enode] #4308 0
[assign] #4308 justification -1: 
[attach-enode] #4309 0
[attach-enode] #4310 0
[assign] #4310 justification -1: 
[attach-enode] #1771 0
[attach-enode] #4311 0
[attach-enode] #4312 0
[assign] #4312 justification -1: 
[attach-enode] #4313 0
[attach-enode] #4314 0
[assign] #4314 justification -1: 
[attach-enode] #4315 0
[attach-enode] #4316 0
[assign] #4316 justification -1: 
[attach-enode] #4317 0
[attach-enode] #4318 0
[assign] #4318 justification -1: 
[attach-enode] #4319 0
[attach-enode] #4320 0
[assign] #4320 justification -1: 
[attach-enode] #4321 0
[attach-enode] #4322 0
[assign] #4322 justification -1: 
[attach-enode] #1792 0
[attach-enode] #4323 0
[attach-enode] #4324 0
[assign] #4324 justification -1: 
[attach-enode] #4325 0
[attach-enode] #4326 0
[assign] #4326 justification -1: 
[attach-enode] #4327 0
[attach-enode] #4328 0
[assign] #4328 justification -1: 
[attach-enode] #4329 0
[attach-enode] #4330 0
[assign] #4330 justification -1: 
[attach-enode] #4331 0
[attach-enode] #4332 0
[assign] #4332 justification -1: 
[attach-enode] #4333 0
[attach-enode] #4334 0
[assign] #4334 justification -1: 
[attach-enode] #1917 0
[attach-enode] #4335 0
[attach-enode] #4336 0
[assign] #4336 justification -1: 
[attach-enode] #4337 0
[attach-enode] #4338 0
[assign] #4338 justification -1: 
[attach-enode] #4339 0
[attach-enode] #4340 0
[assign] #4340 justification -1: 
[attach-enode] #4341 0
[attach-enode] #4342 0
[assign] #4342 justification -1: 
[attach-enode] #4343 0
[attach-enode] #4344 0
[assign] #4344 justification -1: 
[attach-enode] #4345 0
[attach-enode] #4346 0
[assign] #4346 justification -1: 
[attach-enode] #4347 0
[attach-enode] #4348 0
[assign] #4348 justification -1: 
[attach-enode] #4349 0
[attach-enode] #4350 0
[assign] #4350 justification -1: 
[attach-enode] #4351 0
[attach-enode] #4352 0
[assign] #4352 justification -1: 
[attach-enode] #4353 0
[attach-enode] #4354 0
[assign] #4354 justification -1: 
[attach-enode] #4355 0
[attach-enode] #4356 0
[assign] #4356 justification -1: 
[attach-enode] #4357 0
[attach-enode] #4358 0
[assign] #4358 justification -1: 
[attach-enode] #4359 0
[attach-enode] #4360 0
[assign] #4360 justification -1: 
[attach-enode] #4361 0
[attach-enode] #4362 0
[assign] #4362 justification -1: 
[attach-enode] #4363 0
[attach-enode] #4364 0
[assign] #4364 justification -1: 
[attach-enode] #4365 0
[attach-enode] #4366 0
[assign] #4366 justification -1: 
[attach-enode] #4367 0
[attach-enode] #4368 0
[assign] #4368 justification -1: 
[attach-enode] #4369 0
[attach-enode] #4370 0
[assign] #4370 justification -1: 
[attach-enode] #4371 0
[attach-enode] #4372 0
[assign] #4372 justification -1: 
[attach-enode] #4373 0
[attach-enode] #4374 0
[assign] #4374 justification -1: 
[attach-enode] #4375 0
[attach-enode] #4376 0
[assign] #4376 justification -1: 
[attach-enode] #4377 0
[attach-enode] #4378 0
[assign] #4378 justification -1: 
[attach-enode] #4379 0
[attach-enode] #4380 0
[assign] #4380 justification -1: 
[attach-enode] #4381 0
[attach-enode] #4382 0
[assign] #4382 justification -1: 
[attach-enode] #4383 0
[attach-enode] #4384 0
[assign] #4384 justification -1: 
[attach-enode] #4385 0
[attach-enode] #4386 0
[assign] #4386 justification -1: 
[attach-enode] #4387 0
[attach-enode] #4388 0
[assign] #4388 justification -1: 
[attach-enode] #4389 0
[attach-enode] #4390 0
[assign] #4390 justification -1: 
[attach-enode] #4391 0
[attach-enode] #4392 0
[assign] #4392 justification -1: 
[attach-enode] #4393 0
[attach-enode] #4394 0
[assign] #4394 justification -1: 
[attach-enode] #4395 0
[attach-enode] #4396 0
[assign] #4396 justification -1: 
[attach-enode] #4397 0
[attach-enode] #4398 0
[assign] #4398 justification -1: 
[attach-enode] #4399 0
[attach-enode] #4400 0
[assign] #4400 justification -1: 
[attach-enode] #4401 0
[attach-enode] #4402 0
[assign] #4402 justification -1: 
[attach-enode] #4403 0
[attach-enode] #4404 0
[assign] #4404 justification -1: 
[attach-enode] #4405 0
[attach-enode] #4406 0
[assign] #4406 justification -1: 
[attach-enode] #4407 0
[attach-enode] #4408 0
[assign] #4408 justification -1: 
[attach-enode] #4409 0
[attach-enode] #4410 0
[assign] #4410 justification -1: 
[attach-enode] #4411 0
[attach-enode] #4412 0
[assign] #4412 justification -1: 
[attach-enode] #4413 0
[attach-enode] #4414 0
[assign] #4414 justification -1: 
[attach-enode] #4415 0
[attach-enode] #4416 0
[assign] #4416 justification -1: 
[attach-enode] #4417 0
[attach-enode] #4418 0
[assign] #4418 justification -1: 
[attach-enode] #4419 0
[attach-enode] #4420 0
[assign] #4420 justification -1: 
[attach-enode] #4421 0
[attach-enode] #4422 0
[assign] #4422 justification -1: 
[attach-enode] #4423 0
[attach-enode] #4424 0
[assign] #4424 justification -1: 
[attach-enode] #4425 0
[attach-enode] #4426 0
[assign] #4426 justification -1: 
[attach-enode] #4427 0
[attach-enode] #4428 0
[assign] #4428 justification -1: 
[attach-enode] #4429 0
[attach-enode] #4430 0
[assign] #4430 justification -1: 
[attach-enode] #4431 0
[attach-enode] #4432 0
[assign] #4432 justification -1: 
[attach-enode] #4433 0
[attach-enode] #4434 0
[assign] #4434 justification -1: 
[attach-enode] #4435 0
[attach-enode] #4436 0
[assign] #4436 justification -1: 
[attach-enode] #4437 0
[attach-enode] #4438 0
[assign] #4438 justification -1: 
[attach-enode] #4439 0
[attach-enode] #4440 0
[assign] #4440 justification -1: 
[attach-enode] #4441 0
[attach-enode] #4442 0
[assign] #4442 justification -1: 
[attach-enode] #4443 0
[attach-enode] #4444 0
[assign] #4444 justification -1: 
[attach-enode] #4445 0
[attach-enode] #4446 0
[assign] #4446 justification -1: 
[attach-enode] #4447 0
[attach-enode] #4448 0
[assign] #4448 justification -1: 
[attach-enode] #4449 0
[attach-enode] #4450 0
[assign] #4450 justification -1: 
[attach-enode] #4451 0
[attach-enode] #4452 0
[assign] #4452 justification -1: 
[attach-enode] #4453 0
[attach-enode] #4454 0
[assign] #4454 justification -1: 
[attach-enode] #4455 0
[attach-enode] #4456 0
[assign] #4456 justification -1: 
[attach-enode] #4457 0
[attach-enode] #4458 0
[assign] #4458 justification -1: 
[attach-enode] #4459 0
[attach-enode] #4460 0
[assign] #4460 justification -1: 
[attach-enode] #4461 0
[attach-enode] #4462 0
[assign] #4462 justification -1: 
[attach-enode] #4463 0
[attach-enode] #4464 0
[assign] #4464 justification -1: 
[attach-enode] #4465 0
[attach-enode] #4466 0
[assign] #4466 justification -1: 
[attach-enode] #4467 0
[attach-enode] #4468 0
[assign] #4468 justification -1: 
[attach-enode] #4469 0
[attach-enode] #4470 0
[assign] #4470 justification -1: 
[attach-enode] #4471 0
[attach-enode] #4472 0
[assign] #4472 justification -1: 
[attach-enode] #4473 0
[attach-enode] #4474 0
[assign] #4474 justification -1: 
[attach-enode] #4475 0
[attach-enode] #4476 0
[assign] #4476 justification -1: 
[attach-enode] #4477 0
[attach-enode] #4478 0
[assign] #4478 justification -1: 
[attach-enode] #4479 0
[attach-enode] #4480 0
[assign] #4480 justification -1: 
[attach-enode] #4481 0
[attach-enode] #4482 0
[assign] #4482 justification -1: 
[attach-enode] #4483 0
[attach-enode] #4484 0
[assign] #4484 justification -1: 
[attach-enode] #4485 0
[attach-enode] #4486 0
[assign] #4486 justification -1: 
[attach-enode] #4487 0
[attach-enode] #4488 0
[assign] #4488 justification -1: 
[attach-enode] #4489 0
[attach-enode] #4490 0
[assign] #4490 justification -1: 
[attach-enode] #4491 0
[attach-enode] #4492 0
[assign] #4492 justification -1: 
[attach-enode] #4493 0
[attach-enode] #4494 0
[assign] #4494 justification -1: 
[attach-enode] #4495 0
[attach-enode] #4496 0
[assign] #4496 justification -1: 
[attach-enode] #4497 0
[attach-enode] #4498 0
[assign] #4498 justification -1: 
[attach-enode] #4499 0
[attach-enode] #4500 0
[assign] #4500 justification -1: 
[attach-enode] #4501 0
[attach-enode] #4502 0
[assign] #4502 justification -1: 
[attach-enode] #1813 0
[attach-enode] #4503 0
[attach-enode] #4504 0
[assign] #4504 justification -1: 
[attach-enode] #4505 0
[attach-enode] #4506 0
[assign] #4506 justification -1: 
[attach-enode] #1834 0
[attach-enode] #4507 0
[attach-enode] #4508 0
[assign] #4508 justification -1: 
[attach-enode] #4509 0
[attach-enode] #4510 0
[assign] #4510 justification -1: 
[attach-enode] #1855 0
[attach-enode] #4511 0
[attach-enode] #4512 0
[assign] #4512 justification -1: 
[attach-enode] #4513 0
[attach-enode] #4514 0
[assign] #4514 justification -1: 
[attach-enode] #1876 0
[attach-enode] #4515 0
[attach-enode] #4516 0
[assign] #4516 justification -1: 
[attach-enode] #4517 0
[attach-enode] #4518 0
[assign] #4518 justification -1: 
[attach-enode] #1897 0
[attach-enode] #4519 0
[attach-enode] #4520 0
[assign] #4520 justification -1: 
[attach-enode] #4521 0
[attach-enode] #4522 0
[assign] #4522 justification -1: 
[attach-enode] #1937 0
[attach-enode] #4523 0
[attach-enode] #4524 0
[assign] #4524 justification -1: 
[attach-enode] #4525 0
[attach-enode] #4526 0
[assign] #4526 justification -1: 
[attach-enode] #4527 0
[attach-enode] #4528 0
[assign] #4528 justification -1: 
[attach-enode] #4529 0
[attach-enode] #4530 0
[assign] #4530 justification -1: 
[attach-enode] #4531 0
[attach-enode] #4532 0
[assign] #4532 justification -1: 
[attach-enode] #4533 0
[attach-enode] #4534 0
[assign] #4534 justification -1: 
[attach-enode] #4535 0
[attach-enode] #4536 0
[assign] #4536 justification -1: 
[attach-enode] #4537 0
[attach-enode] #4538 0
[assign] #4538 justification -1: 
[attach-enode] #4539 0
[attach-enode] #4540 0
[assign] #4540 justification -1: 
[attach-enode] #4541 0
[attach-enode] #4542 0
[assign] #4542 justification -1: 
[attach-enode] #4543 0
[attach-enode] #4544 0
[assign] #4544 justification -1: 
[attach-enode] #4545 0
[attach-enode] #4546 0
[assign] #4546 justification -1: 
[attach-enode] #4547 0
[attach-enode] #4548 0
[assign] #4548 justification -1: 
[attach-enode] #4549 0
[attach-enode] #4550 0
[assign] #4550 justification -1: 
[attach-enode] #4551 0
[attach-enode] #4552 0
[assign] #4552 justification -1: 
[attach-enode] #4553 0
[attach-enode] #4554 0
[assign] #4554 justification -1: 
[attach-enode] #4555 0
[attach-enode] #4556 0
[assign] #4556 justification -1: 
[attach-enode] #4557 0
[attach-enode] #4558 0
[assign] #4558 justification -1: 
[attach-enode] #4559 0
[attach-enode] #4560 0
[assign] #4560 justification -1: 
[attach-enode] #4561 0
[attach-enode] #4562 0
[assign] #4562 justification -1: 
[attach-enode] #4563 0
[attach-enode] #4564 0
[assign] #4564 justification -1: 
[attach-enode] #4565 0
[attach-enode] #4566 0
[assign] #4566 justification -1: 
[attach-enode] #4567 0
[attach-enode] #4568 0
[assign] #4568 justification -1: 
[attach-enode] #4569 0
[attach-enode] #4570 0
[assign] #4570 justification -1: 
[attach-enode] #4571 0
[attach-enode] #4572 0
[assign] #4572 justification -1: 
[attach-enode] #4573 0
[attach-enode] #4574 0
[assign] #4574 justification -1: 
[attach-enode] #4575 0
[attach-enode] #4576 0
[assign] #4576 justification -1: 
[attach-enode] #4577 0
[attach-enode] #4578 0
[assign] #4578 justification -1: 
[attach-enode] #4579 0
[attach-enode] #4580 0
[assign] #4580 justification -1: 
[attach-enode] #4581 0
[attach-enode] #4582 0
[assign] #4582 justification -1: 
[attach-enode] #4583 0
[attach-enode] #4584 0
[assign] #4584 justification -1: 
[attach-enode] #4585 0
[attach-enode] #4586 0
[assign] #4586 justification -1: 
[attach-enode] #4587 0
[attach-enode] #4588 0
[assign] #4588 justification -1: 
[attach-enode] #4589 0
[attach-enode] #4590 0
[assign] #4590 justification -1: 
[attach-enode] #4591 0
[attach-enode] #4592 0
[assign] #4592 justification -1: 
[attach-enode] #4593 0
[attach-enode] #4594 0
[assign] #4594 justification -1: 
[attach-enode] #4595 0
[attach-enode] #4596 0
[assign] #4596 justification -1: 
[attach-enode] #4597 0
[attach-enode] #4598 0
[assign] #4598 justification -1: 
[attach-enode] #4599 0
[attach-enode] #4600 0
[assign] #4600 justification -1: 
[attach-enode] #4601 0
[attach-enode] #4602 0
[assign] #4602 justification -1: 
[assign] #12973 justification -1: 
[assign] #12975 justification -1: 
[assign] #12978 justification -1: 
[assign] #12980 justification -1: 
[assign] #12984 justification -1: 
[assign] #12986 justification -1: 
[assign] #12988 justification -1: 
[assign] #12990 justification -1: 
[assign] #12992 justification -1: 
[assign] #12994 justification -1: 
[assign] #12996 justification -1: 
[assign] #12998 justification -1: 
[assign] #13000 justification -1: 
[assign] #13002 justification -1: 
[assign] #4725 justification -1: 
[assign] #4732 justification -1: 
[assign] #4739 justification -1: 
[assign] #4747 justification -1: 
[assign] #13004 justification -1: 
[assign] #13006 justification -1: 
[assign] #13008 justification -1: 
[assign] #13010 justification -1: 
[assign] #13012 justification -1: 
[assign] #13014 justification -1: 
[assign] #13016 justification -1: 
[assign] #13018 justification -1: 
[assign] #13020 justification -1: 
[assign] #13022 justification -1: 
[assign] #13024 justification -1: 
[assign] #13026 justification -1: 
[assign] #4845 justification -1: 
[assign] #4852 justification -1: 
[assign] #4859 justification -1: 
[assign] #4867 justification -1: 
[assign] #13028 justification -1: 
[assign] #13030 justification -1: 
[assign] #13032 justification -1: 
[assign] #13034 justification -1: 
[assign] #13036 justification -1: 
[assign] #13038 justification -1: 
[assign] #13040 justification -1: 
[assign] #13042 justification -1: 
[assign] #13044 justification -1: 
[assign] #13046 justification -1: 
[assign] #13048 justification -1: 
[assign] #13050 justification -1: 
[assign] #13052 justification -1: 
[assign] #13054 justification -1: 
[assign] #13056 justification -1: 
[assign] #13058 justification -1: 
[assign] #13060 justification -1: 
[assign] #13062 justification -1: 
[assign] #13064 justification -1: 
[assign] #13066 justification -1: 
[assign] #13068 justification -1: 
[assign] #13070 justification -1: 
[assign] #5037 justification -1: 
[assign] #5044 justification -1: 
[assign] #5051 justification -1: 
[assign] #5058 justification -1: 
[assign] #5065 justification -1: 
[assign] #5072 justification -1: 
[assign] #13073 justification -1: 
[assign] #13075 justification -1: 
[assign] #13077 justification -1: 
[assign] #13079 justification -1: 
[assign] #13071 justification -1: 
[assign] #13081 justification -1: 
[assign] #5135 justification -1: 
[assign] #5142 justification -1: 
[assign] #5151 justification -1: 
[assign] #5159 justification -1: 
[assign] #13085 justification -1: 
[assign] #13087 justification -1: 
[assign] #5187 justification -1: 
[assign] #13091 justification -1: 
[assign] #13096 justification -1: 
[assign] #13097 justification -1: 
[attach-enode] #5222 0
[assign] #5222 justification -1: 
[attach-enode] #5223 0
[assign] #13101 justification -1: 
[attach-enode] #5240 0
[assign] #13108 justification -1: 
[assign] #13114 justification -1: 
[attach-enode] #5289 0
[assign] #5315 justification -1: 
[attach-enode] #5316 0
[assign] #13121 justification -1: 
[attach-enode] #5339 0
[attach-enode] #5352 0
[assign] #13131 justification -1: 
[attach-enode] #5388 0
[attach-enode] #5402 0
[attach-enode] #5420 0
[assign] #13144 justification -1: 
[assign] #13148 justification -1: 
[attach-enode] #5463 0
[attach-enode] #5476 0
[attach-enode] #5491 0
[attach-enode] #5514 0
[attach-enode] #5546 0
[attach-enode] #5567 0
[attach-enode] #5581 0
[attach-enode] #5622 0
[assign] #13216 justification -1: 
[attach-enode] #5692 0
[attach-enode] #5715 0
[assign] #5753 justification -1: 
[assign] #5761 justification -1: 
[assign] #5767 justification -1: 
[attach-enode] #5768 0
[attach-enode] #5782 0
[assign] #5782 justification -1: 
[attach-enode] #5783 0
[assign] #5795 justification -1: 
[assign] #13238 justification -1: 
[assign] #13242 justification -1: 
[attach-enode] #5824 0
[assign] #5824 justification -1: 
[attach-enode] #5825 0
[assign] #5843 justification -1: 
[attach-enode] #5844 0
[assign] #13264 justification -1: 
[attach-enode] #5898 0
[assign] #13269 justification -1: 
[attach-enode] #5930 0
[attach-enode] #5950 0
[attach-enode] #5965 0
[attach-enode] #5978 0
[attach-enode] #6000 0
[assign] #6000 justification -1: 
[assign] #6006 justification -1: 
[attach-enode] #6007 0
[assign] #6025 justification -1: 
[attach-enode] #6026 0
[assign] #6026 justification -1: 
[attach-enode] #6027 0
[assign] #13284 justification -1: 
[attach-enode] #6047 0
[assign] #13288 justification -1: 
[assign] #13292 justification -1: 
[attach-enode] #6076 0
[assign] #6076 justification -1: 
[attach-enode] #6077 0
[assign] #13297 justification -1: 
[attach-enode] #6099 0
[attach-enode] #6126 0
[attach-enode] #6164 0
[attach-enode] #6181 0
[attach-enode] #6193 0
[assign] #6222 justification -1: 
[assign] #6225 justification -1: 
[attach-enode] #6226 0
[assign] #13328 justification -1: 
[attach-enode] #6251 0
[attach-enode] #6267 0
[assign] #6267 justification -1: 
[assign] #6271 justification -1: 
[assign] #13330 justification -1: 
[attach-enode] #6279 0
[assign] #6279 justification -1: 
[attach-enode] #6280 0
[attach-enode] #6281 0
[attach-enode] #6282 0
[attach-enode] #6283 0
[attach-enode] #6287 0
[assign] #6287 justification -1: 
[attach-enode] #6288 0
[attach-enode] #6297 0
[assign] #6297 justification -1: 
[attach-enode] #6298 0
[assign] #6298 justification -1: 
[assign] #6302 justification -1: 
[assign] #13332 justification -1: 
[assign] #13334 justification -1: 
[assign] #6336 justification -1: 
[assign] #13342 justification -1: 
[assign] #13376 justification -1: 
[attach-enode] #6416 0
[assign] #6416 justification -1: 
[attach-enode] #6417 0
[attach-enode] #6418 0
[attach-enode] #6419 0
[attach-enode] #6423 0
[assign] #6423 justification -1: 
[attach-enode] #6424 0
[attach-enode] #6445 0
[assign] #6445 justification -1: 
[attach-enode] #6449 0
[assign] #6449 justification -1: 
[assign] #13379 justification -1: 
[assign] #13381 justification -1: 
[assign] #13383 justification -1: 
[assign] #13385 justification -1: 
[attach-enode] #6487 0
[assign] #6487 justification -1: 
[attach-enode] #6488 0
[attach-enode] #6501 0
[assign] #6501 justification -1: 
[attach-enode] #6502 0
[assign] #13387 justification -1: 
[attach-enode] #6515 0
[assign] #6515 justification -1: 
[attach-enode] #6516 0
[attach-enode] #6532 0
[assign] #6532 justification -1: 
[attach-enode] #6533 0
[attach-enode] #6541 0
[assign] #6541 justification -1: 
[attach-enode] #6542 0
[assign] #6542 justification -1: 
[assign] #6551 justification -1: 
[attach-enode] #6552 0
[attach-enode] #6594 0
[assign] #6594 justification -1: 
[attach-enode] #6595 0
[assign] #6595 justification -1: 
[attach-enode] #6596 0
[attach-enode] #6597 0
[attach-enode] #6598 0
[attach-enode] #6602 0
[assign] #6602 justification -1: 
[attach-enode] #6603 0
[attach-enode] #6611 0
[assign] #6611 justification -1: 
[attach-enode] #6612 0
[assign] #6612 justification -1: 
[attach-enode] #6613 0
[assign] #6613 justification -1: 
[attach-enode] #6614 0
[attach-enode] #6615 0
[attach-enode] #6616 0
[attach-enode] #6620 0
[assign] #6620 justification -1: 
[attach-enode] #6621 0
[attach-enode] #6630 0
[assign] #6630 justification -1: 
[attach-enode] #6629 0
[assign] #6629 justification -1: 
[attach-enode] #6633 0
[assign] #6633 justification -1: 
[attach-enode] #6634 0
[attach-enode] #6644 0
[assign] #6644 justification -1: 
[attach-enode] #6645 0
[attach-enode] #6653 0
[assign] #6653 justification -1: 
[attach-enode] #6654 0
[attach-enode] #6669 0
[assign] #6669 justification -1: 
[attach-enode] #6670 0
[attach-enode] #6678 0
[assign] #6678 justification -1: 
[attach-enode] #6679 0
[assign] #6679 justification -1: 
[attach-enode] #6680 0
[attach-enode] #6718 0
[assign] #6718 justification -1: 
[attach-enode] #6719 0
[assign] #6719 justification -1: 
[attach-enode] #6720 0
[attach-enode] #6721 0
[attach-enode] #6722 0
[attach-enode] #6726 0
[assign] #6726 justification -1: 
[attach-enode] #6727 0
[attach-enode] #6735 0
[assign] #6735 justification -1: 
[attach-enode] #6736 0
[assign] #6736 justification -1: 
[attach-enode] #6737 0
[assign] #6737 justification -1: 
[attach-enode] #6738 0
[attach-enode] #6739 0
[attach-enode] #6740 0
[attach-enode] #6744 0
[assign] #6744 justification -1: 
[attach-enode] #6745 0
[attach-enode] #6754 0
[assign] #6754 justification -1: 
[attach-enode] #6753 0
[assign] #6753 justification -1: 
[attach-enode] #6757 0
[assign] #6757 justification -1: 
[attach-enode] #6758 0
[attach-enode] #6768 0
[assign] #6768 justification -1: 
[attach-enode] #6769 0
[attach-enode] #6777 0
[assign] #6777 justification -1: 
[attach-enode] #6778 0
[attach-enode] #6793 0
[assign] #6793 justification -1: 
[attach-enode] #6794 0
[attach-enode] #6802 0
[assign] #6802 justification -1: 
[attach-enode] #6803 0
[assign] #6803 justification -1: 
[attach-enode] #6804 0
[attach-enode] #6842 0
[assign] #6842 justification -1: 
[attach-enode] #6843 0
[assign] #6843 justification -1: 
[attach-enode] #6844 0
[attach-enode] #6845 0
[attach-enode] #6846 0
[attach-enode] #6850 0
[assign] #6850 justification -1: 
[attach-enode] #6851 0
[attach-enode] #6859 0
[assign] #6859 justification -1: 
[attach-enode] #6860 0
[assign] #6860 justification -1: 
[attach-enode] #6861 0
[assign] #6861 justification -1: 
[attach-enode] #6862 0
[attach-enode] #6863 0
[attach-enode] #6864 0
[attach-enode] #6868 0
[assign] #6868 justification -1: 
[attach-enode] #6869 0
[attach-enode] #6878 0
[assign] #6878 justification -1: 
[attach-enode] #6877 0
[assign] #6877 justification -1: 
[attach-enode] #6881 0
[assign] #6881 justification -1: 
[attach-enode] #6882 0
[attach-enode] #6892 0
[assign] #6892 justification -1: 
[attach-enode] #6893 0
[attach-enode] #6901 0
[assign] #6901 justification -1: 
[attach-enode] #6902 0
[attach-enode] #6917 0
[assign] #6917 justification -1: 
[attach-enode] #6918 0
[attach-enode] #6926 0
[assign] #6926 justification -1: 
[attach-enode] #6927 0
[assign] #6927 justification -1: 
[attach-enode] #6928 0
[attach-enode] #6966 0
[assign] #6966 justification -1: 
[attach-enode] #6967 0
[assign] #6967 justification -1: 
[attach-enode] #6968 0
[attach-enode] #6969 0
[attach-enode] #6970 0
[attach-enode] #6974 0
[assign] #6974 justification -1: 
[attach-enode] #6975 0
[attach-enode] #6983 0
[assign] #6983 justification -1: 
[attach-enode] #6984 0
[assign] #6984 justification -1: 
[attach-enode] #6985 0
[assign] #6985 justification -1: 
[attach-enode] #6986 0
[attach-enode] #6987 0
[attach-enode] #6988 0
[attach-enode] #6992 0
[assign] #6992 justification -1: 
[attach-enode] #6993 0
[attach-enode] #7002 0
[assign] #7002 justification -1: 
[attach-enode] #7001 0
[assign] #7001 justification -1: 
[attach-enode] #7005 0
[assign] #7005 justification -1: 
[attach-enode] #7006 0
[attach-enode] #7016 0
[assign] #7016 justification -1: 
[attach-enode] #7017 0
[attach-enode] #7025 0
[assign] #7025 justification -1: 
[attach-enode] #7026 0
[attach-enode] #7040 0
[assign] #7040 justification -1: 
[attach-enode] #7041 0
[attach-enode] #7049 0
[assign] #7049 justification -1: 
[attach-enode] #7050 0
[assign] #7050 justification -1: 
[attach-enode] #7051 0
[attach-enode] #7089 0
[assign] #7089 justification -1: 
[attach-enode] #7090 0
[assign] #7090 justification -1: 
[attach-enode] #7091 0
[attach-enode] #7092 0
[attach-enode] #7093 0
[attach-enode] #7097 0
[assign] #7097 justification -1: 
[attach-enode] #7098 0
[attach-enode] #7106 0
[assign] #7106 justification -1: 
[attach-enode] #7107 0
[assign] #7107 justification -1: 
[attach-enode] #7108 0
[assign] #7108 justification -1: 
[attach-enode] #7109 0
[attach-enode] #7110 0
[attach-enode] #7111 0
[attach-enode] #7115 0
[assign] #7115 justification -1: 
[attach-enode] #7116 0
[attach-enode] #7125 0
[assign] #7125 justification -1: 
[attach-enode] #7124 0
[assign] #7124 justification -1: 
[attach-enode] #7128 0
[assign] #7128 justification -1: 
[attach-enode] #7129 0
[attach-enode] #7139 0
[assign] #7139 justification -1: 
[attach-enode] #7140 0
[attach-enode] #7148 0
[assign] #7148 justification -1: 
[attach-enode] #7149 0
[attach-enode] #7164 0
[assign] #7164 justification -1: 
[attach-enode] #7173 0
[attach-enode] #7181 0
[assign] #7181 justification -1: 
[attach-enode] #7182 0
[assign] #7182 justification -1: 
[attach-enode] #7183 0
[attach-enode] #7220 0
[assign] #7220 justification -1: 
[attach-enode] #7221 0
[assign] #7221 justification -1: 
[attach-enode] #7222 0
[attach-enode] #7223 0
[attach-enode] #7224 0
[attach-enode] #7228 0
[assign] #7228 justification -1: 
[attach-enode] #7229 0
[attach-enode] #7237 0
[assign] #7237 justification -1: 
[attach-enode] #7238 0
[assign] #7238 justification -1: 
[attach-enode] #7239 0
[assign] #7239 justification -1: 
[attach-enode] #7240 0
[attach-enode] #7241 0
[attach-enode] #7242 0
[attach-enode] #7246 0
[assign] #7246 justification -1: 
[attach-enode] #7247 0
[attach-enode] #7256 0
[assign] #7256 justification -1: 
[attach-enode] #7255 0
[assign] #7255 justification -1: 
[attach-enode] #7259 0
[assign] #7259 justification -1: 
[attach-enode] #7260 0
[attach-enode] #7270 0
[assign] #7270 justification -1: 
[attach-enode] #7271 0
[attach-enode] #7279 0
[assign] #7279 justification -1: 
[attach-enode] #7280 0
[attach-enode] #7295 0
[assign] #7295 justification -1: 
[attach-enode] #7296 0
[attach-enode] #7304 0
[assign] #7304 justification -1: 
[attach-enode] #7305 0
[assign] #7305 justification -1: 
[attach-enode] #7306 0
[attach-enode] #7344 0
[assign] #7344 justification -1: 
[attach-enode] #7345 0
[assign] #7345 justification -1: 
[attach-enode] #7346 0
[attach-enode] #7347 0
[attach-enode] #7348 0
[attach-enode] #7352 0
[assign] #7352 justification -1: 
[attach-enode] #7353 0
[attach-enode] #7361 0
[assign] #7361 justification -1: 
[attach-enode] #7362 0
[assign] #7362 justification -1: 
[attach-enode] #7363 0
[assign] #7363 justification -1: 
[attach-enode] #7364 0
[attach-enode] #7365 0
[attach-enode] #7366 0
[attach-enode] #7370 0
[assign] #7370 justification -1: 
[attach-enode] #7371 0
[attach-enode] #7380 0
[assign] #7380 justification -1: 
[attach-enode] #7379 0
[assign] #7379 justification -1: 
[attach-enode] #7383 0
[assign] #7383 justification -1: 
[attach-enode] #7384 0
[attach-enode] #7394 0
[assign] #7394 justification -1: 
[attach-enode] #7395 0
[attach-enode] #7403 0
[assign] #7403 justification -1: 
[attach-enode] #7404 0
[attach-enode] #7419 0
[assign] #7419 justification -1: 
[attach-enode] #7420 0
[attach-enode] #7428 0
[assign] #7428 justification -1: 
[attach-enode] #7429 0
[assign] #7429 justification -1: 
[attach-enode] #7430 0
[attach-enode] #7468 0
[assign] #7468 justification -1: 
[attach-enode] #7469 0
[assign] #7469 justification -1: 
[attach-enode] #7470 0
[attach-enode] #7471 0
[attach-enode] #7472 0
[attach-enode] #7476 0
[assign] #7476 justification -1: 
[attach-enode] #7477 0
[attach-enode] #7485 0
[assign] #7485 justification -1: 
[attach-enode] #7486 0
[assign] #7486 justification -1: 
[attach-enode] #7487 0
[assign] #7487 justification -1: 
[attach-enode] #7488 0
[attach-enode] #7489 0
[attach-enode] #7490 0
[attach-enode] #7494 0
[assign] #7494 justification -1: 
[attach-enode] #7495 0
[attach-enode] #7504 0
[assign] #7504 justification -1: 
[attach-enode] #7503 0
[assign] #7503 justification -1: 
[attach-enode] #7507 0
[assign] #7507 justification -1: 
[attach-enode] #7508 0
[attach-enode] #7518 0
[assign] #7518 justification -1: 
[attach-enode] #7519 0
[attach-enode] #7527 0
[assign] #7527 justification -1: 
[attach-enode] #7528 0
[attach-enode] #7543 0
[assign] #7543 justification -1: 
[attach-enode] #7544 0
[attach-enode] #7552 0
[assign] #7552 justification -1: 
[attach-enode] #7553 0
[assign] #7553 justification -1: 
[attach-enode] #7554 0
[attach-enode] #7592 0
[assign] #7592 justification -1: 
[attach-enode] #7593 0
[assign] #7593 justification -1: 
[attach-enode] #7594 0
[attach-enode] #7595 0
[attach-enode] #7596 0
[attach-enode] #7600 0
[assign] #7600 justification -1: 
[attach-enode] #7601 0
[attach-enode] #7609 0
[assign] #7609 justification -1: 
[attach-enode] #7610 0
[assign] #7610 justification -1: 
[attach-enode] #7611 0
[assign] #7611 justification -1: 
[attach-enode] #7612 0
[attach-enode] #7613 0
[attach-enode] #7614 0
[attach-enode] #7618 0
[assign] #7618 justification -1: 
[attach-enode] #7619 0
[attach-enode] #7628 0
[assign] #7628 justification -1: 
[attach-enode] #7627 0
[assign] #7627 justification -1: 
[attach-enode] #7631 0
[assign] #7631 justification -1: 
[attach-enode] #7632 0
[attach-enode] #7642 0
[assign] #7642 justification -1: 
[attach-enode] #7643 0
[attach-enode] #7651 0
[assign] #7651 justification -1: 
[attach-enode] #7652 0
[attach-enode] #7667 0
[assign] #7667 justification -1: 
[attach-enode] #7668 0
[attach-enode] #7676 0
[assign] #7676 justification -1: 
[attach-enode] #7677 0
[assign] #7677 justification -1: 
[attach-enode] #7678 0
[attach-enode] #7716 0
[assign] #7716 justification -1: 
[attach-enode] #7717 0
[assign] #7717 justification -1: 
[attach-enode] #7718 0
[attach-enode] #7719 0
[attach-enode] #7720 0
[attach-enode] #7724 0
[assign] #7724 justification -1: 
[attach-enode] #7725 0
[attach-enode] #7733 0
[assign] #7733 justification -1: 
[attach-enode] #7734 0
[assign] #7734 justification -1: 
[attach-enode] #7735 0
[assign] #7735 justification -1: 
[attach-enode] #7736 0
[attach-enode] #7737 0
[attach-enode] #7738 0
[attach-enode] #7742 0
[assign] #7742 justification -1: 
[attach-enode] #7743 0
[attach-enode] #7752 0
[assign] #7752 justification -1: 
[attach-enode] #7751 0
[assign] #7751 justification -1: 
[attach-enode] #7755 0
[assign] #7755 justification -1: 
[attach-enode] #7756 0
[attach-enode] #7766 0
[assign] #7766 justification -1: 
[attach-enode] #7767 0
[attach-enode] #7775 0
[assign] #7775 justification -1: 
[attach-enode] #7776 0
[attach-enode] #7791 0
[assign] #7791 justification -1: 
[attach-enode] #7792 0
[attach-enode] #7800 0
[assign] #7800 justification -1: 
[attach-enode] #7801 0
[assign] #7801 justification -1: 
[attach-enode] #7802 0
[attach-enode] #7840 0
[assign] #7840 justification -1: 
[attach-enode] #7841 0
[assign] #7841 justification -1: 
[attach-enode] #7842 0
[attach-enode] #7843 0
[attach-enode] #7844 0
[attach-enode] #7848 0
[assign] #7848 justification -1: 
[attach-enode] #7849 0
[attach-enode] #7857 0
[assign] #7857 justification -1: 
[attach-enode] #7858 0
[assign] #7858 justification -1: 
[attach-enode] #7859 0
[assign] #7859 justification -1: 
[attach-enode] #7860 0
[attach-enode] #7861 0
[attach-enode] #7862 0
[attach-enode] #7866 0
[assign] #7866 justification -1: 
[attach-enode] #7867 0
[attach-enode] #7876 0
[assign] #7876 justification -1: 
[attach-enode] #7875 0
[assign] #7875 justification -1: 
[attach-enode] #7879 0
[assign] #7879 justification -1: 
[attach-enode] #7880 0
[attach-enode] #7890 0
[assign] #7890 justification -1: 
[attach-enode] #7891 0
[attach-enode] #7899 0
[assign] #7899 justification -1: 
[attach-enode] #7900 0
[attach-enode] #7915 0
[assign] #7915 justification -1: 
[attach-enode] #7924 0
[attach-enode] #7932 0
[assign] #7932 justification -1: 
[attach-enode] #7933 0
[assign] #7933 justification -1: 
[attach-enode] #7934 0
[assign] #7978 justification -1: 
[assign] #7985 justification -1: 
[assign] #7993 justification -1: 
[assign] #8000 justification -1: 
[assign] #8011 justification -1: 
[attach-enode] #8012 0
[assign] #8012 justification -1: 
[attach-enode] #8013 0
[assign] #8027 justification -1: 
[assign] #8035 justification -1: 
[attach-enode] #8036 0
[assign] #8036 justification -1: 
[attach-enode] #8037 0
[assign] #8053 justification -1: 
[assign] #13493 justification -1: 
[assign] #8136 justification -1: 
[assign] #13524 justification -1: 
[assign] #8229 justification -1: 
[assign] #13531 justification -1: 
[assign] #13537 justification -1: 
[assign] #13539 justification -1: 
[assign] #8266 justification -1: 
[assign] #8275 justification -1: 
[attach-enode] #8276 0
[assign] #8276 justification -1: 
[attach-enode] #8277 0
[attach-enode] #8293 0
[assign] #8293 justification -1: 
[attach-enode] #8294 0
[assign] #13551 justification -1: 
[assign] #13553 justification -1: 
[attach-enode] #8325 0
[assign] #8325 justification -1: 
[assign] #8334 justification -1: 
[attach-enode] #8335 0
[assign] #8360 justification -1: 
[attach-enode] #8361 0
[assign] #8403 justification -1: 
[assign] #13568 justification -1: 
[attach-enode] #8410 0
[attach-enode] #1996 0
[attach-enode] #8427 0
[assign] #8427 justification -1: 
[assign] #13573 justification -1: 
[assign] #13577 justification -1: 
[attach-enode] #8445 0
[assign] #8445 justification -1: 
[attach-enode] #8446 0
[assign] #13583 justification -1: 
[attach-enode] #8469 0
[attach-enode] #8497 0
[attach-enode] #8514 0
[assign] #8536 justification -1: 
[assign] #13592 justification -1: 
[assign] #13594 justification -1: 
[attach-enode] #8547 0
[attach-enode] #8567 0
[assign] #8567 justification -1: 
[attach-enode] #8568 0
[assign] #8568 justification -1: 
[attach-enode] #8569 0
[assign] #8569 justification -1: 
[assign] #8572 justification -1: 
[assign] #8578 justification -1: 
[assign] #8584 justification -1: 
[assign] #8587 justification -1: 
[assign] #13601 justification -1: 
[assign] #13604 justification -1: 
[assign] #8611 justification -1: 
[assign] #13606 justification -1: 
[assign] #13608 justification -1: 
[assign] #13612 justification -1: 
[assign] #8642 justification -1: 
[assign] #13613 justification -1: 
[assign] #8653 justification -1: 
[assign] #13618 justification -1: 
[assign] #13624 justification -1: 
[assign] #8671 justification -1: 
[assign] #13626 justification -1: 
[assign] #8690 justification -1: 
[assign] #13628 justification -1: 
[assign] #13634 justification -1: 
[assign] #8718 justification -1: 
[assign] #13636 justification -1: 
[assign] #8737 justification -1: 
[assign] #13638 justification -1: 
[assign] #13644 justification -1: 
[assign] #8765 justification -1: 
[assign] #13646 justification -1: 
[assign] #8784 justification -1: 
[assign] #13648 justification -1: 
[assign] #13654 justification -1: 
[assign] #8812 justification -1: 
[assign] #13656 justification -1: 
[assign] #8827 justification -1: 
[assign] #8831 justification -1: 
[assign] #8839 justification -1: 
[assign] #8850 justification -1: 
[assign] #13658 justification -1: 
[assign] #13664 justification -1: 
[assign] #8878 justification -1: 
[assign] #13666 justification -1: 
[assign] #8897 justification -1: 
[assign] #8910 justification -1: 
[assign] #13668 justification -1: 
[assign] #8921 justification -1: 
[assign] #13670 justification -1: 
[assign] #8940 justification -1: 
[assign] #8953 justification -1: 
[assign] #8960 justification -1: 
[attach-enode] #8961 0
[assign] #8961 justification -1: 
[attach-enode] #8962 0
[attach-enode] #9168 0
[assign] #9168 justification -1: 
[attach-enode] #9169 0
[attach-enode] #9179 0
[attach-enode] #9202 0
[assign] #9255 justification -1: 
[attach-enode] #9256 0
[assign] #9265 justification -1: 
[attach-enode] #9266 0
[assign] #9266 justification -1: 
[attach-enode] #9267 0
[assign] #9290 justification -1: 
[attach-enode] #9291 0
[assign] #9291 justification -1: 
[attach-enode] #9292 0
[assign] #9304 justification -1: 
[attach-enode] #9305 0
[assign] #9305 justification -1: 
[assign] #9313 justification -1: 
[attach-enode] #9314 0
[attach-enode] #9341 0
[assign] #9341 justification -1: 
[attach-enode] #9342 0
[attach-enode] #9357 0
[assign] #9357 justification -1: 
[attach-enode] #9358 0
[assign] #13817 justification -1: 
[assign] #13825 justification -1: 
[assign] #13827 justification -1: 
[assign] #13829 justification -1: 
[assign] #13831 justification -1: 
[assign] #9437 justification -1: 
[attach-enode] #9438 0
[assign] #9438 justification -1: 
[attach-enode] #9439 0
[assign] #9456 justification -1: 
[attach-enode] #9457 0
[assign] #9457 justification -1: 
[attach-enode] #9458 0
[attach-enode] #9482 0
[assign] #9482 justification -1: 
[attach-enode] #9483 0
[attach-enode] #9496 0
[assign] #9496 justification -1: 
[attach-enode] #9497 0
[assign] #13850 justification -1: 
[assign] #13852 justification -1: 
[assign] #13854 justification -1: 
[assign] #13855 justification -1: 
[assign] #13865 justification -1: 
[assign] #9590 justification -1: 
[assign] #9604 justification -1: 
[assign] #13871 justification -1: 
[assign] #9638 justification -1: 
[assign] #13876 justification -1: 
[assign] #13881 justification -1: 
[assign] #13888 justification -1: 
[assign] #13896 justification -1: 
[assign] #13905 justification -1: 
[assign] #13908 justification -1: 
[assign] #13913 justification -1: 
[assign] #13920 justification -1: 
[assign] #13923 justification -1: 
[attach-enode] #9769 0
[assign] #9769 justification -1: 
[attach-enode] #9770 0
[attach-enode] #9794 0
[assign] #9794 justification -1: 
[attach-enode] #9795 0
[assign] #9828 justification -1: 
[assign] #13941 justification -1: 
[assign] #13947 justification -1: 
[assign] #13956 justification -1: 
[assign] #13970 justification -1: 
[assign] #13975 justification -1: 
[assign] #13981 justification -1: 
[attach-enode] #9918 0
[assign] #9918 justification -1: 
[attach-enode] #9919 0
[assign] #14003 justification -1: 
[assign] #14020 justification -1: 
[assign] #14026 justification -1: 
[assign] #14043 justification -1: 
[assign] #10088 justification -1: 
[assign] #14047 justification -1: 
[assign] #14055 justification -1: 
[assign] #14062 justification -1: 
[assign] #10164 justification -1: 
[assign] #14082 justification -1: 
[assign] #14090 justification -1: 
[assign] #14111 justification -1: 
[assign] #14126 justification -1: 
[assign] #14141 justification -1: 
[assign] #14156 justification -1: 
[assign] #14161 justification -1: 
[assign] #10349 justification -1: 
[assign] #14177 justification -1: 
[assign] #14184 justification -1: 
[assign] #10389 justification -1: 
[attach-enode] #10415 0
[assign] #10415 justification -1: 
[assign] #10426 justification -1: 
[assign] #10436 justification -1: 
[attach-enode] #10437 0
[attach-enode] #10454 0
[assign] #10454 justification -1: 
[assign] #10464 justification -1: 
[assign] #10477 justification -1: 
[attach-enode] #10478 0
[assign] #14190 justification -1: 
[attach-enode] #10497 0
[assign] #10497 justification -1: 
[attach-enode] #10498 0
[attach-enode] #10506 0
[assign] #10506 justification -1: 
[attach-enode] #10507 0
[assign] #10520 justification -1: 
[attach-enode] #10521 0
[assign] #10521 justification -1: 
[attach-enode] #10522 0
[assign] #14224 justification -1: 
[assign] #10601 justification -1: 
[assign] #14251 justification -1: 
[attach-enode] #10683 0
[assign] #10683 justification -1: 
[attach-enode] #10684 0
[attach-enode] #10693 0
[assign] #10693 justification -1: 
[attach-enode] #10694 0
[assign] #14256 justification -1: 
[assign] #10718 justification -1: 
[assign] #14258 justification -1: 
[assign] #14260 justification -1: 
[assign] #14266 justification -1: 
[attach-enode] #10767 0
[assign] #10767 justification -1: 
[assign] #10774 justification -1: 
[assign] #10783 justification -1: 
[attach-enode] #10784 0
[assign] #14272 justification -1: 
[assign] #14277 justification -1: 
[attach-enode] #10820 0
[assign] #10820 justification -1: 
[attach-enode] #10821 0
[attach-enode] #10846 0
[assign] #10846 justification -1: 
[attach-enode] #10847 0
[attach-enode] #10865 0
[assign] #10865 justification -1: 
[assign] #10879 justification -1: 
[assign] #14315 justification -1: 
[attach-enode] #10904 0
[attach-enode] #10921 0
[assign] #10921 justification -1: 
[attach-enode] #10922 0
[attach-enode] #10973 0
[assign] #10973 justification -1: 
[attach-enode] #10974 0
[attach-enode] #10989 0
[assign] #10989 justification -1: 
[attach-enode] #10990 0
[assign] #14368 justification -1: 
[assign] #11028 justification -1: 
[assign] #14374 justification -1: 
[assign] #11055 justification -1: 
[attach-enode] #11056 0
[assign] #11056 justification -1: 
[attach-enode] #11057 0
[assign] #14380 justification -1: 
[assign] #14387 justification -1: 
[assign] #14401 justification -1: 
[assign] #14409 justification -1: 
[assign] #14415 justification -1: 
[assign] #14420 justification -1: 
[assign] #14438 justification -1: 
[assign] #11345 justification -1: 
[assign] #14448 justification -1: 
[assign] #11401 justification -1: 
[assign] #11412 justification -1: 
[assign] #11418 justification -1: 
[assign] #14454 justification -1: 
[assign] #11439 justification -1: 
[assign] #14460 justification -1: 
[assign] #11464 justification -1: 
[assign] #14469 justification -1: 
[assign] #14480 justification -1: 
[assign] #14484 justification -1: 
[assign] #11536 justification -1: 
[assign] #14490 justification -1: 
[assign] #14497 justification -1: 
[assign] #14504 justification -1: 
[assign] #14511 justification -1: 
[assign] #1444 bin 713
[assign] #1443 bin 713
[assign] #1442 bin 713
[assign] #1441 bin 713
[assign] #1440 bin 713
[assign] #1439 bin 713
[assign] #1438 bin 713
[assign] #1437 bin 713
[assign] #1436 bin 713
[assign] #1435 bin 713
[assign] #1434 bin 713
[assign] #1433 bin 713
[assign] #1432 bin 713
[assign] #1431 bin 713
[assign] #1430 bin 713
[assign] #1429 bin 713
[assign] #1450 bin 730
[assign] #1381 bin 679
[assign] #1380 bin 679
[assign] #1411 bin 682
[assign] #1410 bin 682
[assign] #1409 bin 682
[assign] #1408 bin 682
[assign] #1407 bin 682
[assign] #1406 bin 682
[assign] #1405 bin 682
[assign] #1404 bin 682
[assign] #1403 bin 682
[assign] #1402 bin 682
[assign] #1401 bin 682
[assign] #1400 bin 682
[assign] #1399 bin 682
[assign] #1398 bin 682
[assign] #1397 bin 682
[assign] #1396 bin 682
[assign] #1395 bin 682
[assign] #1394 bin 682
[assign] #1393 bin 682
[assign] #1392 bin 682
[assign] #1391 bin 682
[assign] #1390 bin 682
[assign] #1389 bin 682
[assign] #1388 bin 682
[assign] #1387 bin 682
[assign] #1461 bin 732
[assign] #1460 bin 732
[assign] #1459 bin 732
[assign] #1458 bin 732
[assign] #1457 bin 732
[assign] #1456 bin 732
[assign] #1455 bin 732
[assign] #1374 bin 672
[assign] #1373 bin 672
[assign] #1372 bin 672
[assign] #1371 bin 672
[assign] #1370 bin 672
[assign] #1369 bin 672
[assign] #1423 bin 710
[assign] #1422 bin 710
[assign] #1417 bin 708
[assign] #1483 bin 742
[assign] #1482 bin 742
[assign] #1481 bin 742
[assign] #1480 bin 742
[assign] #1479 bin 742
[assign] #1478 bin 742
[assign] #1477 bin 742
[assign] #1476 bin 742
[assign] #1475 bin 742
[assign] #1474 bin 742
[assign] #1473 bin 742
[assign] #1472 bin 742
[assign] #1467 bin 740
[assign] #1492 bin 755
[assign] #1491 bin 755
[assign] #1490 bin 755
[assign] #1489 bin 755
[assign] #1498 bin 760
[attach-enode] #140 0
[attach-enode] #244 0
[attach-enode] #1665 0
[attach-enode] #1666 0
[attach-enode] #1686 0
[attach-enode] #1687 0
[attach-enode] #2016 0
[attach-enode] #2036 0
[attach-enode] #2056 0
[attach-enode] #2076 0
[attach-enode] #2096 0
[attach-enode] #2127 0
[attach-enode] #2128 0
[attach-enode] #3414 0
[attach-enode] #4718 0
[attach-enode] #5143 0
[attach-enode] #6327 0
[attach-enode] #6328 0
[eq-expl] #1542 root
[new-match] 2405942975 #1534 #1531 #1542 ; #1543
[new-match] 3793402878 #1541 #1538 #1542 ; #1545
[eq-expl] #120 root
[eq-expl] #1707 root
[new-match] 128482490 #2829 #2825 #1707 #120 ; #6267
[eq-expl] #1728 root
[new-match] 2572889819 #2829 #2825 #1728 #120 ; #6594
[eq-expl] #1749 root
[new-match] 580121215 #2829 #2825 #1749 #120 ; #6718
[eq-expl] #1770 root
[new-match] 1344253795 #2829 #2825 #1770 #120 ; #6842
[eq-expl] #1791 root
[new-match] 1525570840 #2829 #2825 #1791 #120 ; #6966
[eq-expl] #203 root
[new-match] 3836994974 #2829 #2825 #203 #120 ; #7089
[eq-expl] #1812 root
[new-match] 3520613562 #2829 #2825 #1812 #120 ; #7220
[eq-expl] #1833 root
[new-match] 4247027524 #2829 #2825 #1833 #120 ; #7344
[eq-expl] #1854 root
[new-match] 1166150690 #2829 #2825 #1854 #120 ; #7468
[eq-expl] #1875 root
[new-match] 2989796163 #2829 #2825 #1875 #120 ; #7592
[eq-expl] #1896 root
[new-match] 3164962764 #2829 #2825 #1896 #120 ; #7716
[eq-expl] #211 root
[new-match] 1238553547 #2829 #2825 #211 #120 ; #7840
[eq-expl] #1528 root
[new-match] 2104879642 #2829 #2825 #1528 #120 ; #8568
[new-match] 2186794706 #2836 #2832 #1528 #120 ; #8569
[new-match] 512181430 #2846 #2842 #1707 #120 #1707 #120 ; #6445
[new-match] 759460122 #2846 #2842 #1728 #120 #1728 #120 ; #6630
[new-match] 2867372449 #2846 #2842 #1749 #120 #1749 #120 ; #6754
[new-match] 1968227189 #2846 #2842 #1770 #120 #1770 #120 ; #6878
[new-match] 1900218622 #2846 #2842 #1791 #120 #1791 #120 ; #7002
[new-match] 980861145 #2846 #2842 #203 #120 #203 #120 ; #7125
[new-match] 3493827897 #2846 #2842 #1812 #120 #1812 #120 ; #7256
[new-match] 2825936967 #2846 #2842 #1833 #120 #1833 #120 ; #7380
[new-match] 846297364 #2846 #2842 #1854 #120 #1854 #120 ; #7504
[new-match] 2652720749 #2846 #2842 #1875 #120 #1875 #120 ; #7628
[new-match] 828258190 #2846 #2842 #1896 #120 #1896 #120 ; #7752
[new-match] 2408459281 #2846 #2842 #211 #120 #211 #120 ; #7876
[new-match] 3025671576 #2853 #2849 #1707 #120 #1707 #120 ; #6298
[new-match] 1874629904 #2853 #2849 #1728 #120 #1728 #120 ; #6612
[new-match] 4268190775 #2853 #2849 #1749 #120 #1749 #120 ; #6736
[new-match] 194555276 #2853 #2849 #1770 #120 #1770 #120 ; #6860
[new-match] 4115648036 #2853 #2849 #1791 #120 #1791 #120 ; #6984
[new-match] 2500872896 #2853 #2849 #203 #120 #203 #120 ; #7107
[new-match] 1381508858 #2853 #2849 #1812 #120 #1812 #120 ; #7238
[new-match] 345086778 #2853 #2849 #1833 #120 #1833 #120 ; #7362
[new-match] 3195820114 #2853 #2849 #1854 #120 #1854 #120 ; #7486
[new-match] 4264084371 #2853 #2849 #1875 #120 #1875 #120 ; #7610
[new-match] 954491059 #2853 #2849 #1896 #120 #1896 #120 ; #7734
[new-match] 3630428223 #2853 #2849 #211 #120 #211 #120 ; #7858
[new-match] 328513769 #12710 #2857 #1707 #120 #1707 #120 ; #6449
[new-match] 1453763734 #12710 #2857 #1728 #120 #1728 #120 ; #6629
[new-match] 3244958103 #12710 #2857 #1749 #120 #1749 #120 ; #6753
[new-match] 3590707480 #12710 #2857 #1770 #120 #1770 #120 ; #6877
[new-match] 696695539 #12710 #2857 #1791 #120 #1791 #120 ; #7001
[new-match] 1848378201 #12710 #2857 #203 #120 #203 #120 ; #7124
[new-match] 1642542914 #12710 #2857 #1812 #120 #1812 #120 ; #7255
[new-match] 1048288865 #12710 #2857 #1833 #120 #1833 #120 ; #7379
[new-match] 818339526 #12710 #2857 #1854 #120 #1854 #120 ; #7503
[new-match] 1838145986 #12710 #2857 #1875 #120 #1875 #120 ; #7627
[new-match] 967869068 #12710 #2857 #1896 #120 #1896 #120 ; #7751
[new-match] 2871628139 #12710 #2857 #211 #120 #211 #120 ; #7875
[new-match] 857305593 #12738 #2935 #1707 #120 ; #6541
[new-match] 1077452723 #12738 #2935 #1728 #120 ; #6678
[new-match] 660759970 #12738 #2935 #1749 #120 ; #6802
[new-match] 1347762537 #12738 #2935 #1770 #120 ; #6926
[new-match] 1386999028 #12738 #2935 #1791 #120 ; #7049
[new-match] 657151572 #12738 #2935 #203 #120 ; #7181
[new-match] 3708462056 #12738 #2935 #1812 #120 ; #7304
[new-match] 842909831 #12738 #2935 #1833 #120 ; #7428
[new-match] 106714504 #12738 #2935 #1854 #120 ; #7552
[new-match] 3068500578 #12738 #2935 #1875 #120 ; #7676
[new-match] 1879929240 #12738 #2935 #1896 #120 ; #7800
[new-match] 1749496430 #12738 #2935 #211 #120 ; #7932
[new-match] 1913121554 #12746 #2958 #1707 #120 ; #6542
[new-match] 1246395405 #13387 #2958 #1707 #120 ; #6542
[new-match] 1129650489 #12746 #2958 #1728 #120 ; #6679
[new-match] 117179224 #13387 #2958 #1728 #120 ; #6679
[new-match] 2915301658 #12746 #2958 #1749 #120 ; #6803
[new-match] 1285686171 #13387 #2958 #1749 #120 ; #6803
[new-match] 3637859857 #12746 #2958 #1770 #120 ; #6927
[new-match] 238115114 #13387 #2958 #1770 #120 ; #6927
[new-match] 2536778302 #12746 #2958 #1791 #120 ; #7050
[new-match] 3482548437 #13387 #2958 #1791 #120 ; #7050
[new-match] 2401950664 #12746 #2958 #203 #120 ; #7182
[new-match] 2186728308 #13387 #2958 #203 #120 ; #7182
[new-match] 1097351075 #12746 #2958 #1812 #120 ; #7305
[new-match] 107908799 #13387 #2958 #1812 #120 ; #7305
[new-match] 3157042958 #12746 #2958 #1833 #120 ; #7429
[new-match] 2881890229 #13387 #2958 #1833 #120 ; #7429
[new-match] 967309099 #12746 #2958 #1854 #120 ; #7553
[new-match] 248790219 #13387 #2958 #1854 #120 ; #7553
[new-match] 2940326515 #12746 #2958 #1875 #120 ; #7677
[new-match] 1570071747 #13387 #2958 #1875 #120 ; #7677
[new-match] 1737966320 #12746 #2958 #1896 #120 ; #7801
[new-match] 913225951 #13387 #2958 #1896 #120 ; #7801
[new-match] 2848362247 #12746 #2958 #211 #120 ; #7933
[new-match] 3044584360 #13387 #2958 #211 #120 ; #7933
[mk-app] #14851 sized #1542
[mk-app] #14852 not #14851
[mk-app] #14853 = #1543 #1528
[mk-app] #14854 or #14852 #14853
[mk-app] #14855 not #1534
[mk-app] #14856 or #14855 #14852 #14853
[instance] 2405942975 ; 1
[attach-enode] #14851 1
[attach-enode] #14853 1
[end-of-instance]
[push] 0
[mk-app] #14857 Self%&.
[mk-app] #14858 Self%&
[mk-app] #14859 ROWS&.
[mk-app] #14860 ROWS&
[mk-app] #14861 COLS&.
[mk-app] #14862 COLS&
[mk-app] #14863 T&.
[mk-app] #14864 T&
[mk-app] #14865 tr_bound%g1!matrix.traits.Matrix. #14857 #14858 #14859 #14860 #14861 #14862 #14863 #14864
[mk-app] #14866 tr_bound%g1!matrix.row_major.RowMajorSequentialDataMut. #14857 #14858 #14859 #14860 #14861 #14862 #14863 #14864
[mk-app] #14867 tr_bound%g1!g.IndexMut. #14857 #14858 #120 #203
[mk-app] #14868 proj%%g1!g.Index./Output #14857 #14858 #120 #203
[mk-app] #14869 = #14863 #14868
[mk-app] #14870 proj%g1!g.Index./Output #14857 #14858 #120 #203
[mk-app] #14871 = #14864 #14870
[mk-app] #14872 and #14869 #14871
[mk-app] #14873 const_int #14860
[mk-app] #14874 uInv #269 #14873
[mk-app] #14875 const_int #14862
[mk-app] #14876 uInv #269 #14875
[mk-app] #14877 sized #14863
[mk-app] #14878 tr_bound%g1!matrix.traits.MatrixMut. #14857 #14858 #14859 #14860 #14861 #14862 #14863 #14864
[mk-app] #14879 tr_bound%g1!matrix.data_type.MatrixDataType. #14863 #14864
[mk-app] #14880 j@
[mk-app] #14881 uInv #269 #14880
[mk-app] #14882 i@
[mk-app] #14883 uInv #269 #14882
[mk-app] #14884 n@
[mk-app] #14885 uInv #269 #14884
[mk-app] #14886 < #14882 #14884
[mk-app] #14887 < #14880 #14884
[mk-app] #14888 %%location_label%%0
[mk-app] #14889 Mul #14882 #14884
[mk-app] #14890 Add #14889 #14884
[mk-app] #14891 Mul #14884 #14884
[mk-app] #14892 <= #14890 #14891
[mk-app] #14893 Mul #14880 #14884
[mk-app] #14894 Add #14893 #14884
[mk-app] #14895 <= #14894 #14891
[mk-app] #14896 and #14892 #14895
[mk-app] #14897 >= #14889 #336
[mk-app] #14898 and #14896 #14897
[mk-app] #14899 => #14888 #14898
[mk-app] #14900 => #14887 #14899
[mk-app] #14901 => #14886 #14900
[mk-app] #14902 not #14901
[mk-app] #14903 <= #14884 #14882
[mk-app] #14904 not #14903
[inst-discovered] theory-solving 0x0 arith# ; #14886
[mk-app] #14905 = #14886 #14904
[instance] 0x0 #14905
[attach-enode] #14905 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #14905 * #365 #14882
[mk-app] #14906 + #14905 #14884
[attach-meaning] #365 arith (- 1)
[mk-app] #14907 * #365 #14884
[mk-app] #14908 + #14882 #14907
[mk-app] #14905 >= #14908 #336
[inst-discovered] theory-solving 0x0 arith# ; #14903
[mk-app] #14906 = #14903 #14905
[instance] 0x0 #14906
[attach-enode] #14906 0
[end-of-instance]
[mk-app] #14906 not #14905
[mk-app] #14909 <= #14884 #14880
[mk-app] #14910 not #14909
[inst-discovered] theory-solving 0x0 arith# ; #14887
[mk-app] #14911 = #14887 #14910
[instance] 0x0 #14911
[attach-enode] #14911 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #14911 * #365 #14880
[mk-app] #14912 + #14911 #14884
[attach-meaning] #365 arith (- 1)
[mk-app] #14913 + #14880 #14907
[mk-app] #14911 >= #14913 #336
[inst-discovered] theory-solving 0x0 arith# ; #14909
[mk-app] #14912 = #14909 #14911
[instance] 0x0 #14912
[attach-enode] #14912 0
[end-of-instance]
[mk-app] #14912 not #14911
[attach-meaning] #365 arith (- 1)
[mk-app] #14914 * #365 #14891
[mk-app] #14915 + #14890 #14914
[mk-app] #14916 <= #14915 #336
[inst-discovered] theory-solving 0x0 arith# ; #14892
[mk-app] #14917 = #14892 #14916
[instance] 0x0 #14917
[attach-enode] #14917 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #14917 + #14914 #14894
[attach-meaning] #365 arith (- 1)
[mk-app] #14918 * #365 #14894
[mk-app] #14919 + #14891 #14918
[mk-app] #14917 >= #14919 #336
[inst-discovered] theory-solving 0x0 arith# ; #14895
[mk-app] #14920 = #14895 #14917
[instance] 0x0 #14920
[attach-enode] #14920 0
[end-of-instance]
[mk-app] #14920 and #14916 #14917 #14897
[mk-app] #14921 not #14888
[mk-app] #14922 or #14921 #14920
[mk-app] #14923 => #14888 #14920
[inst-discovered] theory-solving 0x0 basic# ; #14923
[mk-app] #14924 = #14923 #14922
[instance] 0x0 #14924
[attach-enode] #14924 0
[end-of-instance]
[mk-app] #14923 or #14911 #14921 #14920
[mk-app] #14924 => #14912 #14922
[inst-discovered] theory-solving 0x0 basic# ; #14924
[mk-app] #14925 = #14924 #14923
[instance] 0x0 #14925
[attach-enode] #14925 0
[end-of-instance]
[mk-app] #14922 or #14905 #14911 #14921 #14920
[mk-app] #14924 => #14906 #14923
[inst-discovered] theory-solving 0x0 basic# ; #14924
[mk-app] #14925 = #14924 #14922
[instance] 0x0 #14925
[attach-enode] #14925 0
[end-of-instance]
[mk-app] #14923 not #14922
[mk-app] #14924 not #14920
[begin-check] 1
[mk-app] #14903 not #14916
[mk-app] #14904 not #14917
[mk-app] #14909 not #14897
[mk-app] #14910 or #14903 #14904 #14909
[mk-app] #14921 not #14910
[inst-discovered] theory-solving 0x0 basic# ; #14920
[mk-app] #14922 = #14920 #14921
[instance] 0x0 #14922
[attach-enode] #14922 0
[end-of-instance]
[mk-app] #14922 not #14921
[inst-discovered] theory-solving 0x0 basic# ; #14922
[mk-app] #14923 = #14922 #14910
[instance] 0x0 #14923
[attach-enode] #14923 0
[end-of-instance]
[mk-app] #14920 or #14903 #14904
[mk-app] #14924 or #14920 #14909
[mk-app] #14910 or #14903 #14904 #14909
[inst-discovered] theory-solving 0x0 basic# ; #14924
[mk-app] #14921 = #14924 #14910
[instance] 0x0 #14921
[attach-enode] #14921 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14910
[mk-app] #14924 = #14910 #14910
[instance] 0x0 #14924
[attach-enode] #14924 0
[end-of-instance]
[assign] #22 justification -1: 
[attach-enode] #14857 0
[attach-enode] #14858 0
[attach-enode] #14859 0
[attach-enode] #14860 0
[attach-enode] #14861 0
[attach-enode] #14862 0
[attach-enode] #14863 0
[attach-enode] #14864 0
[attach-enode] #14865 0
[assign] #14865 justification -1: 
[attach-enode] #14866 0
[assign] #14866 justification -1: 
[attach-enode] #14867 0
[assign] #14867 justification -1: 
[attach-enode] #14868 0
[attach-enode] #14869 0
[assign] #14869 justification -1: 
[attach-enode] #14870 0
[attach-enode] #14871 0
[assign] #14871 justification -1: 
[attach-enode] #14873 0
[attach-enode] #14874 0
[assign] #14874 justification -1: 
[attach-enode] #14875 0
[attach-enode] #14876 0
[assign] #14876 justification -1: 
[attach-enode] #14877 0
[assign] #14877 justification -1: 
[attach-enode] #14878 0
[assign] #14878 justification -1: 
[attach-enode] #14879 0
[assign] #14879 justification -1: 
[attach-enode] #14880 0
[attach-enode] #14881 0
[assign] #14881 justification -1: 
[attach-enode] #14882 0
[attach-enode] #14883 0
[assign] #14883 justification -1: 
[attach-enode] #14884 0
[attach-enode] #14885 0
[assign] #14885 justification -1: 
[attach-enode] #365 0
[attach-enode] #14907 0
[attach-enode] #14908 0
[assign] (not #14905) justification -1: 
[attach-enode] #14913 0
[assign] (not #14911) justification -1: 
[assign] #14888 justification -1: 
[attach-enode] #14891 0
[attach-enode] #14889 0
[attach-enode] #14890 0
[attach-enode] #14914 0
[attach-enode] #14915 0
[attach-enode] #14893 0
[attach-enode] #14894 0
[attach-enode] #14918 0
[attach-enode] #14919 0
[assign] #28 bin 1
[eq-expl] #14857 root
[eq-expl] #14858 root
[eq-expl] #14859 root
[eq-expl] #14860 root
[eq-expl] #14861 root
[eq-expl] #14862 root
[eq-expl] #14863 lit #14869 ; #14868
[eq-expl] #14868 root
[eq-expl] #14864 lit #14871 ; #14870
[eq-expl] #14870 root
[new-match] 735841177 #12874 #3257 #14864 #14863 #14862 #14861 #14860 #14859 #14858 #14857 ; #14865
[new-match] 3149757520 #12937 #3379 #14864 #14863 #14862 #14861 #14860 #14859 #14858 #14857 ; #14866
[new-match] 3252099597 #12813 #3139 #203 #120 #14858 #14857 ; #14867
[eq-expl] #269 root
[eq-expl] #14873 root
[new-match] 3236217106 #12367 #444 #14873 #269 ; #14874
[eq-expl] #14875 root
[new-match] 248510993 #12367 #444 #14875 #269 ; #14876
[eq-expl] #14880 root
[new-match] 1482598756 #12367 #444 #14880 #269 ; #14881
[eq-expl] #14882 root
[new-match] 1229948049 #12367 #444 #14882 #269 ; #14883
[eq-expl] #14884 root
[new-match] 3008788663 #12367 #444 #14884 #269 ; #14885
[new-match] 1237688865 #12929 #3364 #14864 #14863 #14862 #14861 #14860 #14859 #14858 #14857 ; #14878
[new-match] 3452593725 #3198 #3194 #14864 #14863 ; #14879
[mk-app] #14854 tr_bound%g1!matrix.traits.Matrix. #14857 #14858 #14859 #14860 #14861 #14862 #14868 #14870
[mk-app] #14924 not #14854
[mk-app] #14921 tr_bound%g1!matrix.row_major.RowMajorSequentialData. #14857 #14858 #14859 #14860 #14861 #14862 #14868 #14870
[mk-app] #14922 not #14921
[mk-app] #14923 tr_bound%g1!g.Index. #14857 #14858 #120 #203
[mk-app] #14925 not #14923
[mk-app] #14926 = #14868 #14868
[mk-app] #14927 not #14926
[mk-app] #14928 = #14870 #14870
[mk-app] #14929 not #14928
[mk-app] #14930 not #14874
[mk-app] #14931 not #14876
[mk-app] #14932 sized #14868
[mk-app] #14933 not #14932
[mk-app] #14934 or #14922 #14925 #14927 #14929 #14930 #14931 #14933
[mk-app] #14935 not #14934
[mk-app] #14936 or #14924 #14935
[inst-discovered] theory-solving 0x0 user-sort# ; #14926
[mk-app] #14937 = #14926 #1
[instance] 0x0 #14937
[attach-enode] #14937 0
[end-of-instance]
[mk-app] #14937 not #1
[inst-discovered] theory-solving 0x0 basic# ; #14937
[mk-app] #14938 = #14937 #2
[instance] 0x0 #14938
[attach-enode] #14938 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 user-sort# ; #14928
[mk-app] #14937 = #14928 #1
[instance] 0x0 #14937
[attach-enode] #14937 0
[end-of-instance]
[mk-app] #14937 not #1
[inst-discovered] theory-solving 0x0 basic# ; #14937
[mk-app] #14938 = #14937 #2
[instance] 0x0 #14938
[attach-enode] #14938 0
[end-of-instance]
[mk-app] #14937 or #14922 #14925 #14930 #14931 #14933
[mk-app] #14938 or #14922 #14925 #2 #2 #14930 #14931 #14933
[inst-discovered] theory-solving 0x0 basic# ; #14938
[mk-app] #14939 = #14938 #14937
[instance] 0x0 #14939
[attach-enode] #14939 0
[end-of-instance]
[mk-app] #14938 not #14937
[mk-app] #14939 or #14924 #14938
[mk-app] #14940 not #12874
[mk-app] #14941 or #14940 #14924 #14938
[instance] 735841177 ; 1
[attach-enode] #14854 1
[attach-enode] #14921 1
[attach-enode] #14923 1
[attach-enode] #14932 1
[end-of-instance]
[mk-app] #14939 tr_bound%g1!matrix.row_major.RowMajorSequentialDataMut. #14857 #14858 #14859 #14860 #14861 #14862 #14868 #14870
[mk-app] #14942 not #14939
[mk-app] #14943 or #14922 #14930 #14931 #14933
[mk-app] #14944 not #14943
[mk-app] #14945 or #14942 #14944
[inst-discovered] theory-solving 0x0 basic# ; #14943
[mk-app] #14946 = #14943 #14943
[instance] 0x0 #14946
[attach-enode] #14946 0
[end-of-instance]
[mk-app] #14946 not #12937
[mk-app] #14947 or #14946 #14942 #14944
[instance] 3149757520 ; 1
[attach-enode] #14939 1
[end-of-instance]
[mk-app] #14948 not #14867
[mk-app] #14949 not #121
[mk-app] #14950 or #14925 #14949
[mk-app] #14951 not #14950
[mk-app] #14952 or #14948 #14951
[inst-discovered] theory-solving 0x0 basic# ; #14950
[mk-app] #14953 = #14950 #14950
[instance] 0x0 #14953
[attach-enode] #14953 0
[end-of-instance]
[mk-app] #14953 not #12813
[mk-app] #14954 or #14953 #14948 #14951
[instance] 3252099597 ; 1
[assign] (not #14950) justification -1: 984 2444
[end-of-instance]
[mk-app] #14955 >= #14873 #336
[mk-app] #14956 not #14955
[mk-app] #14957 + #14873 #7166
[mk-app] #14958 >= #14957 #336
[mk-app] #14959 or #14956 #14958
[mk-app] #14960 = #14959 #14874
[mk-app] #14961 not #14960
[mk-app] #14962 + #7166 #14873
[inst-discovered] theory-solving 0x0 arith# ; #14957
[mk-app] #14963 = #14957 #14962
[instance] 0x0 #14963
[attach-enode] #14963 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #14963 * #365 #14873
[mk-app] #14964 + #7151 #14963
[mk-app] #14965 <= #14964 #336
[mk-app] #14966 >= #14962 #336
[inst-discovered] theory-solving 0x0 arith# ; #14966
[mk-app] #14967 = #14966 #14965
[instance] 0x0 #14967
[attach-enode] #14967 0
[end-of-instance]
[mk-app] #14962 or #14956 #14965
[mk-app] #14966 = #14962 #14874
[mk-app] #14967 not #14962
[mk-app] #14968 not #14966
[inst-discovered] theory-solving 0x0 basic# ; #14968
[mk-app] #14967 = #14968 #14968
[instance] 0x0 #14967
[attach-enode] #14967 0
[end-of-instance]
[mk-app] #14967 not #12367
[mk-app] #14969 or #14967 #14968
[instance] 3236217106 ; 1
[attach-enode] #7151 1
[attach-enode] #14963 1
[attach-enode] #14964 1
[assign] (not #14966) justification -1: 59
[end-of-instance]
[mk-app] #14970 >= #14875 #336
[mk-app] #14971 not #14970
[mk-app] #14972 + #14875 #7166
[mk-app] #14973 >= #14972 #336
[mk-app] #14974 or #14971 #14973
[mk-app] #14975 = #14974 #14876
[mk-app] #14976 not #14975
[mk-app] #14977 + #7166 #14875
[inst-discovered] theory-solving 0x0 arith# ; #14972
[mk-app] #14978 = #14972 #14977
[instance] 0x0 #14978
[attach-enode] #14978 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #14978 * #365 #14875
[mk-app] #14979 + #7151 #14978
[mk-app] #14980 <= #14979 #336
[mk-app] #14981 >= #14977 #336
[inst-discovered] theory-solving 0x0 arith# ; #14981
[mk-app] #14982 = #14981 #14980
[instance] 0x0 #14982
[attach-enode] #14982 0
[end-of-instance]
[mk-app] #14977 or #14971 #14980
[mk-app] #14981 = #14977 #14876
[mk-app] #14982 not #14977
[mk-app] #14983 not #14981
[inst-discovered] theory-solving 0x0 basic# ; #14983
[mk-app] #14982 = #14983 #14983
[instance] 0x0 #14982
[attach-enode] #14982 0
[end-of-instance]
[mk-app] #14982 or #14967 #14983
[instance] 248510993 ; 1
[attach-enode] #14978 1
[attach-enode] #14979 1
[assign] (not #14981) justification -1: 59
[end-of-instance]
[mk-app] #14984 >= #14880 #336
[mk-app] #14985 not #14984
[mk-app] #14986 + #14880 #7166
[mk-app] #14987 >= #14986 #336
[mk-app] #14988 or #14985 #14987
[mk-app] #14989 = #14988 #14881
[mk-app] #14990 not #14989
[mk-app] #14991 + #7166 #14880
[inst-discovered] theory-solving 0x0 arith# ; #14986
[mk-app] #14992 = #14986 #14991
[instance] 0x0 #14992
[attach-enode] #14992 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #14992 * #365 #14880
[mk-app] #14993 + #7151 #14992
[mk-app] #14994 <= #14993 #336
[mk-app] #14995 >= #14991 #336
[inst-discovered] theory-solving 0x0 arith# ; #14995
[mk-app] #14996 = #14995 #14994
[instance] 0x0 #14996
[attach-enode] #14996 0
[end-of-instance]
[mk-app] #14991 or #14985 #14994
[mk-app] #14995 = #14991 #14881
[mk-app] #14996 not #14991
[mk-app] #14997 not #14995
[inst-discovered] theory-solving 0x0 basic# ; #14997
[mk-app] #14996 = #14997 #14997
[instance] 0x0 #14996
[attach-enode] #14996 0
[end-of-instance]
[mk-app] #14996 or #14967 #14997
[instance] 1482598756 ; 1
[attach-enode] #14992 1
[attach-enode] #14993 1
[assign] (not #14995) justification -1: 59
[end-of-instance]
[mk-app] #14998 >= #14882 #336
[mk-app] #14999 not #14998
[mk-app] #15000 + #14882 #7166
[mk-app] #15001 >= #15000 #336
[mk-app] #15002 or #14999 #15001
[mk-app] #15003 = #15002 #14883
[mk-app] #15004 not #15003
[mk-app] #15005 + #7166 #14882
[inst-discovered] theory-solving 0x0 arith# ; #15000
[mk-app] #15006 = #15000 #15005
[instance] 0x0 #15006
[attach-enode] #15006 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #15006 * #365 #14882
[mk-app] #15007 + #7151 #15006
[mk-app] #15008 <= #15007 #336
[mk-app] #15009 >= #15005 #336
[inst-discovered] theory-solving 0x0 arith# ; #15009
[mk-app] #15010 = #15009 #15008
[instance] 0x0 #15010
[attach-enode] #15010 0
[end-of-instance]
[mk-app] #15005 or #14999 #15008
[mk-app] #15009 = #15005 #14883
[mk-app] #15010 not #15005
[mk-app] #15011 not #15009
[inst-discovered] theory-solving 0x0 basic# ; #15011
[mk-app] #15010 = #15011 #15011
[instance] 0x0 #15010
[attach-enode] #15010 0
[end-of-instance]
[mk-app] #15010 or #14967 #15011
[instance] 1229948049 ; 1
[attach-enode] #15006 1
[attach-enode] #15007 1
[assign] (not #15009) justification -1: 59
[end-of-instance]
[mk-app] #15012 >= #14884 #336
[mk-app] #15013 not #15012
[mk-app] #15014 + #14884 #7166
[mk-app] #15015 >= #15014 #336
[mk-app] #15016 or #15013 #15015
[mk-app] #15017 = #15016 #14885
[mk-app] #15018 not #15017
[mk-app] #15019 + #7166 #14884
[inst-discovered] theory-solving 0x0 arith# ; #15014
[mk-app] #15020 = #15014 #15019
[instance] 0x0 #15020
[attach-enode] #15020 0
[end-of-instance]
[attach-meaning] #365 arith (- 1)
[mk-app] #15020 + #7151 #14907
[mk-app] #15021 <= #15020 #336
[mk-app] #15022 >= #15019 #336
[inst-discovered] theory-solving 0x0 arith# ; #15022
[mk-app] #15023 = #15022 #15021
[instance] 0x0 #15023
[attach-enode] #15023 0
[end-of-instance]
[mk-app] #15019 or #15013 #15021
[mk-app] #15022 = #15019 #14885
[mk-app] #15023 not #15019
[mk-app] #15024 not #15022
[inst-discovered] theory-solving 0x0 basic# ; #15024
[mk-app] #15023 = #15024 #15024
[instance] 0x0 #15023
[attach-enode] #15023 0
[end-of-instance]
[mk-app] #15023 or #14967 #15024
[instance] 3008788663 ; 1
[attach-enode] #15020 1
[assign] (not #15022) justification -1: 59
[end-of-instance]
[mk-app] #15025 tr_bound%g1!matrix.data_type.MatrixDataType. #14868 #14870
[mk-app] #15026 not #15025
[mk-app] #15027 tr_bound%g1!g.MatrixDataTypeBase. #14868 #14870
[mk-app] #15028 or #15026 #15027
[mk-app] #15029 not #3198
[mk-app] #15030 or #15029 #15026 #15027
[instance] 3452593725 ; 1
[attach-enode] #15025 1
[attach-enode] #15027 1
[end-of-instance]
[assign] #14923 clause 2463 2468
[assign] (not #14962) clause -2471 2472
[assign] (not #14977) clause -2475 2476
[assign] (not #14991) clause -2479 2480
[assign] (not #15005) clause -2483 2484
[assign] (not #15019) clause -2487 2488
[assign] #14955 clause 2469 2471
[assign] (not #14965) clause -2470 2471
[assign] #14970 clause 2473 2475
[assign] (not #14980) clause -2474 2475
[assign] #14984 clause 2477 2479
[assign] (not #14994) clause -2478 2479
[assign] #14998 clause 2481 2483
[assign] (not #15008) clause -2482 2483
[assign] #15012 clause 2485 2487
[assign] (not #15021) clause -2486 2487
[assign] #14854 justification -1: 2442 2446 2445
[assign] #14932 justification -1: 2449 2445
[assign] #14939 justification -1: 2443 2446 2445
[assign] #15025 justification -1: 2451 2446 2445
[new-match] 634644196 #12809 #3131 #203 #120 #14858 #14857 ; #14923
[assign] (not #14937) clause -2465 -2461
[assign] (not #14943) clause -2467 -2466
[assign] #15027 clause 2490 -2489
[assign] #14921 clause 2462 2465
[new-match] 2320419446 #12842 #3186 #14870 #14868 ; #15027
[new-match] 932265562 #12933 #3372 #14870 #14868 #14862 #14861 #14860 #14859 #14858 #14857 ; #14921
[mk-app] #15031 not #15027
[mk-app] #15032 tr_bound%core!marker.Copy. #14868 #14870
[mk-app] #15033 not #15032
[mk-app] #15034 tr_bound%g1!g.Zero. #14868 #14870
[mk-app] #15035 not #15034
[mk-app] #15036 tr_bound%g1!g.One. #14868 #14870
[mk-app] #15037 not #15036
[mk-app] #15038 tr_bound%core!ops.arith.Add. #14868 #14870 #14868 #14870
[mk-app] #15039 not #15038
[mk-app] #15040 proj%%core!ops.arith.Add./Output #14868 #14870 #14868 #14870
[mk-app] #15041 = #14868 #15040
[mk-app] #15042 not #15041
[mk-app] #15043 proj%core!ops.arith.Add./Output #14868 #14870 #14868 #14870
[mk-app] #15044 = #14870 #15043
[mk-app] #15045 not #15044
[mk-app] #15046 tr_bound%vstd!std_specs.ops.AddSpec. #14868 #14870 #14868 #14870
[mk-app] #15047 not #15046
[mk-app] #15048 tr_bound%core!ops.arith.Sub. #14868 #14870 #14868 #14870
[mk-app] #15049 not #15048
[mk-app] #15050 proj%%core!ops.arith.Sub./Output #14868 #14870 #14868 #14870
[mk-app] #15051 = #14868 #15050
[mk-app] #15052 not #15051
[mk-app] #15053 proj%core!ops.arith.Sub./Output #14868 #14870 #14868 #14870
[mk-app] #15054 = #14870 #15053
[mk-app] #15055 not #15054
[mk-app] #15056 tr_bound%vstd!std_specs.ops.SubSpec. #14868 #14870 #14868 #14870
[mk-app] #15057 not #15056
[mk-app] #15058 tr_bound%core!ops.arith.Mul. #14868 #14870 #14868 #14870
[mk-app] #15059 not #15058
[mk-app] #15060 proj%%core!ops.arith.Mul./Output #14868 #14870 #14868 #14870
[mk-app] #15061 = #14868 #15060
[mk-app] #15062 not #15061
[mk-app] #15063 proj%core!ops.arith.Mul./Output #14868 #14870 #14868 #14870
[mk-app] #15064 = #14870 #15063
[mk-app] #15065 not #15064
[mk-app] #15066 tr_bound%vstd!std_specs.ops.MulSpec. #14868 #14870 #14868 #14870
[mk-app] #15067 not #15066
[mk-app] #15068 tr_bound%core!ops.arith.Div. #14868 #14870 #14868 #14870
[mk-app] #15069 not #15068
[mk-app] #15070 proj%%core!ops.arith.Div./Output #14868 #14870 #14868 #14870
[mk-app] #15071 = #14868 #15070
[mk-app] #15072 not #15071
[mk-app] #15073 proj%core!ops.arith.Div./Output #14868 #14870 #14868 #14870
[mk-app] #15074 = #14870 #15073
[mk-app] #15075 not #15074
[mk-app] #15076 tr_bound%vstd!std_specs.ops.DivSpec. #14868 #14870 #14868 #14870
[mk-app] #15077 not #15076
[mk-app] #15078 tr_bound%core!ops.arith.Neg. #14868 #14870
[mk-app] #15079 not #15078
[mk-app] #15080 proj%%core!ops.arith.Neg./Output #14868 #14870
[mk-app] #15081 = #14868 #15080
[mk-app] #15082 not #15081
[mk-app] #15083 proj%core!ops.arith.Neg./Output #14868 #14870
[mk-app] #15084 = #14870 #15083
[mk-app] #15085 not #15084
[mk-app] #15086 tr_bound%vstd!std_specs.ops.NegSpec. #14868 #14870
[mk-app] #15087 not #15086
[mk-app] #15088 tr_bound%core!ops.arith.AddAssign. #14868 #14870 #14868 #14870
[mk-app] #15089 not #15088
[mk-app] #15090 tr_bound%vstd!std_specs.ops.AddAssignSpec. #14868 #14870 #14868 #14870
[mk-app] #15091 not #15090
[mk-app] #15092 tr_bound%core!ops.arith.SubAssign. #14868 #14870 #14868 #14870
[mk-app] #15093 not #15092
[mk-app] #15094 tr_bound%vstd!std_specs.ops.SubAssignSpec. #14868 #14870 #14868 #14870
[mk-app] #15095 not #15094
[mk-app] #15096 tr_bound%core!cmp.PartialEq. #14868 #14870 #14868 #14870
[mk-app] #15097 not #15096
[mk-app] #15098 tr_bound%vstd!std_specs.cmp.PartialEqSpec. #14868 #14870 #14868 #14870
[mk-app] #15099 not #15098
[mk-app] #15100 tr_bound%core!cmp.PartialOrd. #14868 #14870 #14868 #14870
[mk-app] #15101 not #15100
[mk-app] #15102 tr_bound%vstd!std_specs.cmp.PartialOrdSpec. #14868 #14870 #14868 #14870
[mk-app] #15103 not #15102
[mk-app] #15104 or #14933 #15033 #15035 #15037 #15039 #15042 #15045 #15047 #15049 #15052 #15055 #15057 #15059 #15062 #15065 #15067 #15069 #15072 #15075 #15077 #15079 #15082 #15085 #15087 #15089 #15091 #15093 #15095 #15097 #15099 #15101 #15103
[mk-app] #15105 not #15104
[mk-app] #15106 or #15031 #15105
[inst-discovered] theory-solving 0x0 basic# ; #15104
[mk-app] #15107 = #15104 #15104
[instance] 0x0 #15107
[attach-enode] #15107 0
[end-of-instance]
[mk-app] #15107 not #12842
[mk-app] #15108 or #15107 #15031 #15105
[instance] 2320419446 ; 2
[attach-enode] #15032 2
[attach-enode] #15034 2
[attach-enode] #15036 2
[attach-enode] #15038 2
[attach-enode] #15040 2
[attach-enode] #15041 2
[attach-enode] #15043 2
[attach-enode] #15044 2
[attach-enode] #15046 2
[attach-enode] #15048 2
[attach-enode] #15050 2
[attach-enode] #15051 2
[attach-enode] #15053 2
[attach-enode] #15054 2
[attach-enode] #15056 2
[attach-enode] #15058 2
[attach-enode] #15060 2
[attach-enode] #15061 2
[attach-enode] #15063 2
[attach-enode] #15064 2
[attach-enode] #15066 2
[attach-enode] #15068 2
[attach-enode] #15070 2
[attach-enode] #15071 2
[attach-enode] #15073 2
[attach-enode] #15074 2
[attach-enode] #15076 2
[attach-enode] #15078 2
[attach-enode] #15080 2
[attach-enode] #15081 2
[attach-enode] #15083 2
[attach-enode] #15084 2
[attach-enode] #15086 2
[attach-enode] #15088 2
[attach-enode] #15090 2
[attach-enode] #15092 2
[attach-enode] #15094 2
[attach-enode] #15096 2
[attach-enode] #15098 2
[attach-enode] #15100 2
[attach-enode] #15102 2
[assign] (not #15104) justification -1: 985 2490
[end-of-instance]
[assign] #15032 clause 2491 2522
[assign] #15034 clause 2492 2522
[assign] #15036 clause 2493 2522
[assign] #15038 clause 2494 2522
[assign] #15041 clause 2495 2522
[assign] #15044 clause 2496 2522
[assign] #15046 clause 2497 2522
[assign] #15048 clause 2498 2522
[assign] #15051 clause 2499 2522
[assign] #15054 clause 2500 2522
[assign] #15056 clause 2501 2522
[assign] #15058 clause 2502 2522
[assign] #15061 clause 2503 2522
[assign] #15064 clause 2504 2522
[assign] #15066 clause 2505 2522
[assign] #15068 clause 2506 2522
[assign] #15071 clause 2507 2522
[assign] #15074 clause 2508 2522
[assign] #15076 clause 2509 2522
[assign] #15078 clause 2510 2522
[assign] #15081 clause 2511 2522
[assign] #15084 clause 2512 2522
[assign] #15086 clause 2513 2522
[assign] #15088 clause 2514 2522
[assign] #15090 clause 2515 2522
[assign] #15092 clause 2516 2522
[assign] #15094 clause 2517 2522
[assign] #15096 clause 2518 2522
[assign] #15098 clause 2519 2522
[assign] #15100 clause 2520 2522
[assign] #15102 clause 2521 2522
[new-match] 3685330364 #12710 #2857 #14870 #14868 #14870 #14868 ; #15102
[new-match] 244040268 #2846 #2842 #14870 #14868 #14870 #14868 ; #15100
[new-match] 2865171255 #2853 #2849 #14870 #14868 #14870 #14868 ; #15098
[new-match] 2885800253 #12772 #3040 #14870 #14868 #14870 #14868 ; #15094
[new-match] 605341039 #3036 #3032 #14870 #14868 #14870 #14868 ; #15092
[new-match] 1609535486 #12759 #3007 #14870 #14868 #14870 #14868 ; #15090
[new-match] 3715682854 #3003 #2999 #14870 #14868 #14870 #14868 ; #15088
[new-match] 1288431271 #2978 #2974 #14870 #14868 ; #15086
[new-match] 1810448817 #2971 #2967 #14870 #14868 ; #15078
[new-match] 1120747343 #12790 #3076 #14870 #14868 #14870 #14868 ; #15076
[new-match] 1215876792 #12786 #3068 #14870 #14868 #14870 #14868 ; #15068
[new-match] 2890610091 #12781 #3058 #14870 #14868 #14870 #14868 ; #15066
[new-match] 1528242552 #12777 #3050 #14870 #14868 #14870 #14868 ; #15058
[new-match] 4191121587 #12768 #3025 #14870 #14868 #14870 #14868 ; #15056
[new-match] 1729914336 #12764 #3017 #14870 #14868 #14870 #14868 ; #15048
[new-match] 1494232537 #12755 #2992 #14870 #14868 #14870 #14868 ; #15046
[new-match] 268839186 #12751 #2984 #14870 #14868 #14870 #14868 ; #15038
[new-match] 2587656744 #3125 #3121 #14870 #14868 ; #15036
[new-match] 241172847 #3118 #3114 #14870 #14868 ; #15034
[new-match] 2388382626 #2836 #2832 #14870 #14868 ; #15032
[mk-app] #15109 tr_bound%core!clone.Clone. #14868 #14870
[mk-app] #15110 or #15033 #15109
[mk-app] #15111 not #2836
[mk-app] #15112 or #15111 #15033 #15109
[instance] 2388382626 ; 3
[attach-enode] #15109 3
[assign] #15109 justification -1: 949 2491
[end-of-instance]
[new-match] 2618453047 #2829 #2825 #14870 #14868 ; #15109
[decide-and-or] #274 #271
[push] 1
[assign] #271 decision axiom
[mk-app] #15113 = #284 #7151
[mk-app] #15114 <= #7151 #284
[mk-app] #15115 >= #7151 #284
[assign] #15113 justification -1: 42 38
[attach-enode] #15113 0
[assign] #15114 justification -1: 2524
[assign] #15115 justification -1: 2524
[decide-and-or] #5234 #5233
[push] 2
[assign] (not #5223) decision axiom
[eq-expl] #1240 root
[new-match] 2850374349 #28 #27 #1240 ; #5223
[mk-app] #15116 = #5223 #5222
[mk-app] #15117 not #28
[mk-app] #15118 or #15117 #15116
[instance] 2850374349 ; 1
[assign] (not #15116) justification -1: 1610 -1611
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15116
[conflict] #15116
[pop] 1 3
[assign] #15116 axiom
[assign] #5223 clause 1611 -2527
[assign] #5231 bin 1611
[decide-and-or] #13098 #5249
[push] 2
[assign] (not #5240) decision axiom
[eq-expl] #1241 root
[new-match] 1033867528 #28 #27 #1241 ; #5240
[mk-app] #15117 = #5240 #1429
[mk-app] #15118 not #28
[mk-app] #15119 or #15118 #15117
[instance] 1033867528 ; 1
[assign] (not #15117) justification -1: 714 -1614
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15117
[conflict] #15117
[pop] 1 3
[assign] #15117 axiom
[assign] #5240 clause 1614 -2528
[assign] #13102 bin 1614
[decide-and-or] #13111 #5302
[push] 2
[assign] (not #5289) decision axiom
[eq-expl] #1242 root
[new-match] 1715854556 #28 #27 #1242 ; #5289
[mk-app] #15118 = #5289 #1430
[mk-app] #15119 not #28
[mk-app] #15120 or #15119 #15118
[instance] 1715854556 ; 1
[assign] (not #15118) justification -1: 715 -1618
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15118
[conflict] #15118
[pop] 1 3
[assign] #15118 axiom
[assign] #5289 clause 1618 -2529
[assign] #13115 bin 1618
[decide-and-or] #5326 #5325
[push] 2
[assign] (not #5316) decision axiom
[eq-expl] #1243 root
[new-match] 1704229351 #28 #27 #1243 ; #5316
[mk-app] #15119 = #5316 #1431
[mk-app] #15120 not #28
[mk-app] #15121 or #15120 #15119
[instance] 1704229351 ; 1
[assign] (not #15119) justification -1: 716 -1621
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15119
[conflict] #15119
[pop] 1 3
[assign] #15119 axiom
[assign] #5316 clause 1621 -2530
[assign] #5324 bin 1621
[decide-and-or] #13118 #5350
[push] 2
[assign] (not #5339) decision axiom
[eq-expl] #1244 root
[new-match] 835794055 #28 #27 #1244 ; #5339
[mk-app] #15120 = #5339 #1432
[mk-app] #15121 not #28
[mk-app] #15122 or #15121 #15120
[instance] 835794055 ; 1
[assign] (not #15120) justification -1: 717 -1624
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15120
[conflict] #15120
[pop] 1 3
[assign] #15120 axiom
[assign] #5339 clause 1624 -2531
[assign] #13123 bin 1624
[decide-and-or] #13125 #5368
[push] 2
[assign] (not #5352) decision axiom
[eq-expl] #1245 root
[new-match] 3272867984 #28 #27 #1245 ; #5352
[mk-app] #15121 = #5352 #1433
[mk-app] #15122 not #28
[mk-app] #15123 or #15122 #15121
[instance] 3272867984 ; 1
[assign] (not #15121) justification -1: 718 -1626
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15121
[conflict] #15121
[pop] 1 3
[assign] #15121 axiom
[assign] #5352 clause 1626 -2532
[assign] #13127 bin 1626
[decide-and-or] #13126 #5400
[push] 2
[assign] (not #5388) decision axiom
[eq-expl] #1246 root
[new-match] 280427611 #28 #27 #1246 ; #5388
[mk-app] #15122 = #5388 #1434
[mk-app] #15123 not #28
[mk-app] #15124 or #15123 #15122
[instance] 280427611 ; 1
[assign] (not #15122) justification -1: 719 -1629
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15122
[conflict] #15122
[pop] 1 3
[assign] #15122 axiom
[assign] #5388 clause 1629 -2533
[assign] #13133 bin 1629
[decide-and-or] #13136 #5418
[push] 2
[assign] (not #5402) decision axiom
[eq-expl] #1247 root
[new-match] 979091383 #28 #27 #1247 ; #5402
[mk-app] #15123 = #5402 #1435
[mk-app] #15124 not #28
[mk-app] #15125 or #15124 #15123
[instance] 979091383 ; 1
[assign] (not #15123) justification -1: 720 -1631
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15123
[conflict] #15123
[pop] 1 3
[assign] #15123 axiom
[assign] #5402 clause 1631 -2534
[assign] #13139 bin 1631
[decide-and-or] #13137 #5429
[push] 2
[assign] (not #5420) decision axiom
[eq-expl] #1248 root
[new-match] 4045097051 #28 #27 #1248 ; #5420
[mk-app] #15124 = #5420 #1436
[mk-app] #15125 not #28
[mk-app] #15126 or #15125 #15124
[instance] 4045097051 ; 1
[assign] (not #15124) justification -1: 721 -1633
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15124
[conflict] #15124
[pop] 1 3
[assign] #15124 axiom
[assign] #5420 clause 1633 -2535
[assign] #13134 bin 1633
[decide-and-or] #13145 #5474
[push] 2
[assign] (not #5463) decision axiom
[eq-expl] #1249 root
[new-match] 728721575 #28 #27 #1249 ; #5463
[mk-app] #15125 = #5463 #1437
[mk-app] #15126 not #28
[mk-app] #15127 or #15126 #15125
[instance] 728721575 ; 1
[assign] (not #15125) justification -1: 722 -1637
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15125
[conflict] #15125
[pop] 1 3
[assign] #15125 axiom
[assign] #5463 clause 1637 -2536
[assign] #13150 bin 1637
[decide-and-or] #13146 #5485
[push] 2
[assign] (not #5476) decision axiom
[eq-expl] #1250 root
[new-match] 3345921180 #28 #27 #1250 ; #5476
[mk-app] #15126 = #5476 #1438
[mk-app] #15127 not #28
[mk-app] #15128 or #15127 #15126
[instance] 3345921180 ; 1
[assign] (not #15126) justification -1: 723 -1639
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15126
[conflict] #15126
[pop] 1 3
[assign] #15126 axiom
[assign] #5476 clause 1639 -2537
[assign] #13152 bin 1639
[decide-and-or] #13158 #5512
[push] 2
[assign] (not #5491) decision axiom
[eq-expl] #1251 root
[new-match] 4016760646 #28 #27 #1251 ; #5491
[mk-app] #15127 = #5491 #1439
[mk-app] #15128 not #28
[mk-app] #15129 or #15128 #15127
[instance] 4016760646 ; 1
[assign] (not #15127) justification -1: 724 -1641
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15127
[conflict] #15127
[pop] 1 3
[assign] #15127 axiom
[assign] #5491 clause 1641 -2538
[assign] #13161 bin 1641
[decide-and-or] #13156 #5544
[push] 2
[assign] (not #5514) decision axiom
[eq-expl] #1252 root
[new-match] 2261129681 #28 #27 #1252 ; #5514
[mk-app] #15128 = #5514 #1440
[mk-app] #15129 not #28
[mk-app] #15130 or #15129 #15128
[instance] 2261129681 ; 1
[assign] (not #15128) justification -1: 725 -1643
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15128
[conflict] #15128
[pop] 1 3
[assign] #15128 axiom
[assign] #5514 clause 1643 -2539
[assign] #13177 bin 1643
[decide-and-or] #13157 #5565
[push] 2
[assign] (not #5546) decision axiom
[eq-expl] #1253 root
[new-match] 1818313068 #28 #27 #1253 ; #5546
[mk-app] #15129 = #5546 #1441
[mk-app] #15130 not #28
[mk-app] #15131 or #15130 #15129
[instance] 1818313068 ; 1
[assign] (not #15129) justification -1: 726 -1645
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15129
[conflict] #15129
[pop] 1 3
[assign] #15129 axiom
[assign] #5546 clause 1645 -2540
[assign] #13194 bin 1645
[decide-and-or] #13178 #5579
[push] 2
[assign] (not #5567) decision axiom
[eq-expl] #1254 root
[new-match] 2278126060 #28 #27 #1254 ; #5567
[mk-app] #15130 = #5567 #1442
[mk-app] #15131 not #28
[mk-app] #15132 or #15131 #15130
[instance] 2278126060 ; 1
[assign] (not #15130) justification -1: 727 -1647
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15130
[conflict] #15130
[pop] 1 3
[assign] #15130 axiom
[assign] #5567 clause 1647 -2541
[assign] #13196 bin 1647
[decide-and-or] #13195 #5611
[push] 2
[assign] (not #5581) decision axiom
[eq-expl] #1255 root
[new-match] 1558629723 #28 #27 #1255 ; #5581
[mk-app] #15131 = #5581 #1443
[mk-app] #15132 not #28
[mk-app] #15133 or #15132 #15131
[instance] 1558629723 ; 1
[assign] (not #15131) justification -1: 728 -1649
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15131
[conflict] #15131
[pop] 1 3
[assign] #15131 axiom
[assign] #5581 clause 1649 -2542
[assign] #13201 bin 1649
[decide-and-or] #13204 #5677
[push] 2
[assign] (not #5622) decision axiom
[eq-expl] #1256 root
[new-match] 622976498 #28 #27 #1256 ; #5622
[mk-app] #15132 = #5622 #1444
[mk-app] #15133 not #28
[mk-app] #15134 or #15133 #15132
[instance] 622976498 ; 1
[assign] (not #15132) justification -1: 729 -1651
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15132
[conflict] #15132
[pop] 1 3
[assign] #15132 axiom
[assign] #5622 clause 1651 -2543
[assign] #13212 bin 1651
[decide-and-or] #13214 #5713
[push] 2
[assign] (not #5692) decision axiom
[eq-expl] #1233 root
[new-match] 2388859386 #28 #27 #1233 ; #5692
[mk-app] #15133 = #5692 #1380
[mk-app] #15134 not #28
[mk-app] #15135 or #15134 #15133
[instance] 2388859386 ; 1
[assign] (not #15133) justification -1: 680 -1654
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15133
[conflict] #15133
[pop] 1 3
[assign] #15133 axiom
[assign] #5692 clause 1654 -2544
[assign] #13220 bin 1654
[decide-and-or] #13224 #5742
[push] 2
[assign] (not #5715) decision axiom
[eq-expl] #1234 root
[new-match] 3941438411 #28 #27 #1234 ; #5715
[mk-app] #15134 = #5715 #1381
[mk-app] #15135 not #28
[mk-app] #15136 or #15135 #15134
[instance] 3941438411 ; 1
[assign] (not #15134) justification -1: 681 -1656
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15134
[conflict] #15134
[pop] 1 3
[assign] #15134 axiom
[assign] #5715 clause 1656 -2545
[assign] #13229 bin 1656
[decide-and-or] #5781 #5780
[push] 2
[assign] (not #5768) decision axiom
[eq-expl] #1262 root
[new-match] 3112607393 #28 #27 #1262 ; #5768
[mk-app] #15135 = #5768 #1455
[mk-app] #15136 not #28
[mk-app] #15137 or #15136 #15135
[instance] 3112607393 ; 1
[assign] (not #15135) justification -1: 733 -1661
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15135
[conflict] #15135
[pop] 1 3
[assign] #15135 axiom
[assign] #5768 clause 1661 -2546
[assign] #5778 bin 1661
[decide-and-or] #5790 #5789
[push] 2
[assign] (not #5783) decision axiom
[eq-expl] #1263 root
[new-match] 2747499180 #28 #27 #1263 ; #5783
[mk-app] #15136 = #5783 #5782
[mk-app] #15137 not #28
[mk-app] #15138 or #15137 #15136
[instance] 2747499180 ; 1
[assign] (not #15136) justification -1: 1663 -1664
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15136
[conflict] #15136
[pop] 1 3
[assign] #15136 axiom
[assign] #5783 clause 1664 -2547
[assign] #5787 bin 1664
[decide-and-or] #5837 #5836
[push] 2
[assign] (not #5825) decision axiom
[eq-expl] #1261 root
[new-match] 3277692931 #28 #27 #1261 ; #5825
[mk-app] #15137 = #5825 #5824
[mk-app] #15138 not #28
[mk-app] #15139 or #15138 #15137
[instance] 3277692931 ; 1
[assign] (not #15137) justification -1: 1669 -1670
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15137
[conflict] #15137
[pop] 1 3
[assign] #15137 axiom
[assign] #5825 clause 1670 -2548
[assign] #5835 bin 1670
[decide-and-or] #13243 #5886
[push] 2
[assign] (not #5844) decision axiom
[eq-expl] #1264 root
[new-match] 4156945799 #28 #27 #1264 ; #5844
[mk-app] #15138 = #5844 #1456
[mk-app] #15139 not #28
[mk-app] #15140 or #15139 #15138
[instance] 4156945799 ; 1
[assign] (not #15138) justification -1: 734 -1673
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15138
[conflict] #15138
[pop] 1 3
[assign] #15138 axiom
[assign] #5844 clause 1673 -2549
[assign] #13260 bin 1673
[decide-and-or] #13261 #5911
[push] 2
[assign] (not #5898) decision axiom
[eq-expl] #1265 root
[new-match] 816882576 #28 #27 #1265 ; #5898
[mk-app] #15139 = #5898 #1457
[mk-app] #15140 not #28
[mk-app] #15141 or #15140 #15139
[instance] 816882576 ; 1
[assign] (not #15139) justification -1: 735 -1676
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15139
[conflict] #15139
[pop] 1 3
[assign] #15139 axiom
[assign] #5898 clause 1676 -2550
[assign] #13265 bin 1676
[decide-and-or] #13270 #5940
[push] 2
[assign] (not #5930) decision axiom
[eq-expl] #1266 root
[new-match] 749343733 #28 #27 #1266 ; #5930
[mk-app] #15140 = #5930 #1458
[mk-app] #15141 not #28
[mk-app] #15142 or #15141 #15140
[instance] 749343733 ; 1
[assign] (not #15140) justification -1: 736 -1679
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15140
[conflict] #15140
[pop] 1 3
[assign] #15140 axiom
[assign] #5930 clause 1679 -2551
[assign] #13272 bin 1679
[decide-and-or] #13273 #5960
[push] 2
[assign] (not #5950) decision axiom
[eq-expl] #1267 root
[new-match] 1234756980 #28 #27 #1267 ; #5950
[mk-app] #15141 = #5950 #1459
[mk-app] #15142 not #28
[mk-app] #15143 or #15142 #15141
[instance] 1234756980 ; 1
[assign] (not #15141) justification -1: 737 -1681
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15141
[conflict] #15141
[pop] 1 3
[assign] #15141 axiom
[assign] #5950 clause 1681 -2552
[assign] #13275 bin 1681
[decide-and-or] #5977 #5976
[push] 2
[assign] (not #5965) decision axiom
[eq-expl] #1268 root
[new-match] 740253115 #28 #27 #1268 ; #5965
[mk-app] #15142 = #5965 #1460
[mk-app] #15143 not #28
[mk-app] #15144 or #15143 #15142
[instance] 740253115 ; 1
[assign] (not #15142) justification -1: 738 -1683
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15142
[conflict] #15142
[pop] 1 3
[assign] #15142 axiom
[assign] #5965 clause 1683 -2553
[assign] #5974 bin 1683
[decide-and-or] #13262 #5990
[push] 2
[assign] (not #5978) decision axiom
[eq-expl] #1269 root
[new-match] 929348692 #28 #27 #1269 ; #5978
[mk-app] #15143 = #5978 #1461
[mk-app] #15144 not #28
[mk-app] #15145 or #15144 #15143
[instance] 929348692 ; 1
[assign] (not #15143) justification -1: 739 -1685
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15143
[conflict] #15143
[pop] 1 3
[assign] #15143 axiom
[assign] #5978 clause 1685 -2554
[assign] #13276 bin 1685
[decide-and-or] #6020 #6019
[push] 2
[assign] (not #6007) decision axiom
[eq-expl] #1224 root
[new-match] 3710588377 #28 #27 #1224 ; #6007
[mk-app] #15144 = #6007 #6000
[mk-app] #15145 not #28
[mk-app] #15146 or #15145 #15144
[instance] 3710588377 ; 1
[assign] (not #15144) justification -1: 1687 -1689
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15144
[conflict] #15144
[pop] 1 3
[assign] #15144 axiom
[assign] #6007 clause 1689 -2555
[assign] #6017 bin 1689
[decide-and-or] #13278 #6039
[push] 2
[assign] (not #6027) decision axiom
[eq-expl] #1225 root
[new-match] 4284762065 #28 #27 #1225 ; #6027
[mk-app] #15145 = #6027 #6026
[mk-app] #15146 not #28
[mk-app] #15147 or #15146 #15145
[instance] 4284762065 ; 1
[assign] (not #15145) justification -1: 1692 -1693
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15145
[conflict] #15145
[pop] 1 3
[assign] #15145 axiom
[assign] #6027 clause 1693 -2556
[assign] #13281 bin 1693
[decide-and-or] #13279 #6057
[push] 2
[assign] (not #6047) decision axiom
[eq-expl] #1228 root
[new-match] 2313035860 #28 #27 #1228 ; #6047
[mk-app] #15146 = #6047 #1369
[mk-app] #15147 not #28
[mk-app] #15148 or #15147 #15146
[instance] 2313035860 ; 1
[assign] (not #15146) justification -1: 673 -1696
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15146
[conflict] #15146
[pop] 1 3
[assign] #15146 axiom
[assign] #6047 clause 1696 -2557
[assign] #13286 bin 1696
[decide-and-or] #13289 #6091
[push] 2
[assign] (not #6077) decision axiom
[eq-expl] #1226 root
[new-match] 824198818 #28 #27 #1226 ; #6077
[mk-app] #15147 = #6077 #6076
[mk-app] #15148 not #28
[mk-app] #15149 or #15148 #15147
[instance] 824198818 ; 1
[assign] (not #15147) justification -1: 1700 -1701
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15147
[conflict] #15147
[pop] 1 3
[assign] #15147 axiom
[assign] #6077 clause 1701 -2558
[assign] #13294 bin 1701
[decide-and-or] #13295 #6115
[push] 2
[assign] (not #6099) decision axiom
[eq-expl] #1227 root
[new-match] 3923805301 #28 #27 #1227 ; #6099
[mk-app] #15148 = #6099 #1370
[mk-app] #15149 not #28
[mk-app] #15150 or #15149 #15148
[instance] 3923805301 ; 1
[assign] (not #15148) justification -1: 674 -1704
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15148
[conflict] #15148
[pop] 2 3
[assign] #15116 axiom
[assign] #15117 axiom
[assign] #15118 axiom
[assign] #15119 axiom
[assign] #15120 axiom
[assign] #15121 axiom
[assign] #15122 axiom
[assign] #15123 axiom
[assign] #15124 axiom
[assign] #15125 axiom
[assign] #15126 axiom
[assign] #15127 axiom
[assign] #15128 axiom
[assign] #15129 axiom
[assign] #15130 axiom
[assign] #15131 axiom
[assign] #15132 axiom
[assign] #15133 axiom
[assign] #15134 axiom
[assign] #15135 axiom
[assign] #15136 axiom
[assign] #15137 axiom
[assign] #15138 axiom
[assign] #15139 axiom
[assign] #15140 axiom
[assign] #15141 axiom
[assign] #15142 axiom
[assign] #15143 axiom
[assign] #15144 axiom
[assign] #15145 axiom
[assign] #15146 axiom
[assign] #15147 axiom
[assign] #15148 axiom
[assign] #5223 clause 1611 -2524
[assign] #5240 clause 1614 -2525
[assign] #5289 clause 1618 -2526
[assign] #5316 clause 1621 -2527
[assign] #5339 clause 1624 -2528
[assign] #5352 clause 1626 -2529
[assign] #5388 clause 1629 -2530
[assign] #5402 clause 1631 -2531
[assign] #5420 clause 1633 -2532
[assign] #5463 clause 1637 -2533
[assign] #5476 clause 1639 -2534
[assign] #5491 clause 1641 -2535
[assign] #5514 clause 1643 -2536
[assign] #5546 clause 1645 -2537
[assign] #5567 clause 1647 -2538
[assign] #5581 clause 1649 -2539
[assign] #5622 clause 1651 -2540
[assign] #5692 clause 1654 -2541
[assign] #5715 clause 1656 -2542
[assign] #5768 clause 1661 -2543
[assign] #5783 clause 1664 -2544
[assign] #5825 clause 1670 -2545
[assign] #5844 clause 1673 -2546
[assign] #5898 clause 1676 -2547
[assign] #5930 clause 1679 -2548
[assign] #5950 clause 1681 -2549
[assign] #5965 clause 1683 -2550
[assign] #5978 clause 1685 -2551
[assign] #6007 clause 1689 -2552
[assign] #6027 clause 1693 -2553
[assign] #6047 clause 1696 -2554
[assign] #6077 clause 1701 -2555
[assign] #6099 clause 1704 -2556
[assign] #5231 bin 1611
[assign] #13102 bin 1614
[assign] #13115 bin 1618
[assign] #5324 bin 1621
[assign] #13123 bin 1624
[assign] #13127 bin 1626
[assign] #13133 bin 1629
[assign] #13139 bin 1631
[assign] #13134 bin 1633
[assign] #13150 bin 1637
[assign] #13152 bin 1639
[assign] #13161 bin 1641
[assign] #13177 bin 1643
[assign] #13194 bin 1645
[assign] #13196 bin 1647
[assign] #13201 bin 1649
[assign] #13212 bin 1651
[assign] #13220 bin 1654
[assign] #13229 bin 1656
[assign] #5778 bin 1661
[assign] #5787 bin 1664
[assign] #5835 bin 1670
[assign] #13260 bin 1673
[assign] #13265 bin 1676
[assign] #13272 bin 1679
[assign] #13275 bin 1681
[assign] #5974 bin 1683
[assign] #13276 bin 1685
[assign] #6017 bin 1689
[assign] #13281 bin 1693
[assign] #13286 bin 1696
[assign] #13294 bin 1701
[assign] #13299 bin 1704
[decide-and-or] #274 #271
[push] 1
[assign] #271 decision axiom
[mk-app] #15113 = #284 #7151
[mk-app] #15114 <= #7151 #284
[mk-app] #15115 >= #7151 #284
[assign] #15113 justification -1: 42 38
[attach-enode] #15113 0
[assign] #15114 justification -1: 2557
[assign] #15115 justification -1: 2557
[decide-and-or] #13303 #6162
[push] 2
[assign] (not #6126) decision axiom
[eq-expl] #1229 root
[new-match] 3176097252 #28 #27 #1229 ; #6126
[mk-app] #15149 = #6126 #1371
[mk-app] #15150 not #28
[mk-app] #15151 or #15150 #15149
[instance] 3176097252 ; 1
[assign] (not #15149) justification -1: 675 -1706
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15149
[conflict] #15149
[pop] 1 3
[assign] #15149 axiom
[assign] #6126 clause 1706 -2560
[assign] #13317 bin 1706
[decide-and-or] #13304 #6174
[push] 2
[assign] (not #6164) decision axiom
[eq-expl] #1230 root
[new-match] 3766586327 #28 #27 #1230 ; #6164
[mk-app] #15150 = #6164 #1372
[mk-app] #15151 not #28
[mk-app] #15152 or #15151 #15150
[instance] 3766586327 ; 1
[assign] (not #15150) justification -1: 676 -1708
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15150
[conflict] #15150
[pop] 1 3
[assign] #15150 axiom
[assign] #6164 clause 1708 -2561
[assign] #13319 bin 1708
[decide-and-or] #13301 #6191
[push] 2
[assign] (not #6181) decision axiom
[eq-expl] #1231 root
[new-match] 2733243512 #28 #27 #1231 ; #6181
[mk-app] #15151 = #6181 #1373
[mk-app] #15152 not #28
[mk-app] #15153 or #15152 #15151
[instance] 2733243512 ; 1
[assign] (not #15151) justification -1: 677 -1710
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15151
[conflict] #15151
[pop] 1 3
[assign] #15151 axiom
[assign] #6181 clause 1710 -2562
[assign] #13321 bin 1710
[decide-and-or] #13302 #6205
[push] 2
[assign] (not #6193) decision axiom
[eq-expl] #1232 root
[new-match] 1363919314 #28 #27 #1232 ; #6193
[mk-app] #15152 = #6193 #1374
[mk-app] #15153 not #28
[mk-app] #15154 or #15153 #15152
[instance] 1363919314 ; 1
[assign] (not #15152) justification -1: 678 -1712
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15152
[conflict] #15152
[pop] 1 3
[assign] #15152 axiom
[assign] #6193 clause 1712 -2563
[assign] #13323 bin 1712
[decide-and-or] #6239 #6238
[push] 2
[assign] (not #6226) decision axiom
[eq-expl] #1238 root
[new-match] 3390255071 #28 #27 #1238 ; #6226
[mk-app] #15153 = #6226 #1422
[mk-app] #15154 not #28
[mk-app] #15155 or #15154 #15153
[instance] 3390255071 ; 1
[assign] (not #15153) justification -1: 711 -1716
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15153
[conflict] #15153
[pop] 1 3
[assign] #15153 axiom
[assign] #6226 clause 1716 -2564
[assign] #6237 bin 1716
[decide-and-or] #6266 #6265
[push] 2
[assign] (not #6251) decision axiom
[eq-expl] #1239 root
[new-match] 193940388 #28 #27 #1239 ; #6251
[mk-app] #15154 = #6251 #1423
[mk-app] #15155 not #28
[mk-app] #15156 or #15155 #15154
[instance] 193940388 ; 1
[assign] (not #15154) justification -1: 712 -1719
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15154
[conflict] #15154
[pop] 1 3
[assign] #15154 axiom
[assign] #6251 clause 1719 -2565
[assign] #6263 bin 1719
[decide-and-or] #6286 #6285
[push] 2
[assign] (not #6280) decision axiom
[eq-expl] #796 root
[new-match] 172926965 #28 #27 #796 ; #6280
[mk-app] #15155 = #6280 #6279
[mk-app] #15156 not #28
[mk-app] #15157 or #15156 #15155
[instance] 172926965 ; 1
[assign] (not #15155) justification -1: 1724 -1725
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15155
[conflict] #15155
[pop] 1 3
[assign] #15155 axiom
[assign] #6280 clause 1725 -2566
[assign] #6283 bin 1725
[eq-expl] #1 root
[new-match] 1639557372 #164 #163 #1 ; #6282
[new-match] 1502941733 #6271 #6270 #1707 #120 #1707 #120 ; #6281
[mk-app] #15156 %B #6282
[mk-app] #15157 = #1 #15156
[inst-discovered] theory-solving 0x0 basic# ; #15157
[mk-app] #15158 = #15157 #15156
[instance] 0x0 #15158
[attach-enode] #15158 0
[end-of-instance]
[mk-app] #15158 not #164
[mk-app] #15159 or #15158 #15156
[instance] 1639557372 ; 1
[attach-enode] #15156 1
[assign] #15156 justification -1: 24
[end-of-instance]
[mk-app] #15160 has_type #6281 #135
[mk-app] #15161 not #6271
[mk-app] #15162 or #15161 #15160
[instance] 1502941733 ; 1
[attach-enode] #15160 1
[assign] #15160 justification -1: 1722
[end-of-instance]
[eq-expl] #6281 lit #6283 ; #6282
[eq-expl] #6282 root
[eq-expl] #135 root
[new-match] 3295295923 #183 #179 #6281 ; #15160 (#135 #135)
[new-match] 1176310629 #138 #137 #1 ; #15160 (#135 #135) (#6281 #6282)
[mk-app] #15163 has_type #6282 #135
[mk-app] #15164 not #15163
[mk-app] #15165 B #15156
[mk-app] #15166 = #6282 #15165
[mk-app] #15167 or #15164 #15166
[mk-app] #15168 not #183
[mk-app] #15169 or #15168 #15164 #15166
[instance] 3295295923 ; 2
[attach-enode] #15163 2
[attach-enode] #15165 2
[attach-enode] #15166 2
[end-of-instance]
[assign] #15163 justification -1: 2568 1726
[assign] #15166 justification -1: 2567
[decide-and-or] #6296 #6295
[push] 2
[assign] (not #6288) decision axiom
[eq-expl] #797 root
[new-match] 1023630062 #28 #27 #797 ; #6288
[mk-app] #15170 = #6288 #6287
[mk-app] #15171 not #28
[mk-app] #15172 or #15171 #15170
[instance] 1023630062 ; 1
[assign] (not #15170) justification -1: 1727 -1728
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15170
[conflict] #15170
[pop] 1 3
[assign] #15170 axiom
[assign] #6288 clause 1728 -2571
[assign] #6293 bin 1728
[decide-and-or] #6422 #6421
[push] 2
[assign] (not #6417) decision axiom
[eq-expl] #798 root
[new-match] 1518100398 #28 #27 #798 ; #6417
[mk-app] #15171 = #6417 #6416
[mk-app] #15172 not #28
[mk-app] #15173 or #15172 #15171
[instance] 1518100398 ; 1
[assign] (not #15171) justification -1: 1738 -1739
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15171
[conflict] #15171
[pop] 1 3
[assign] #15171 axiom
[assign] #6417 clause 1739 -2572
[assign] #6419 bin 1739
[new-match] 4148604941 #6302 #6301 #1707 #120 #1707 #120 ; #6418
[decide-and-or] #6444 #6447
[push] 2
[assign] (not #6424) decision axiom
[eq-expl] #799 root
[new-match] 594049000 #28 #27 #799 ; #6424
[mk-app] #15172 = #6424 #6423
[mk-app] #15173 not #28
[mk-app] #15174 or #15173 #15172
[instance] 594049000 ; 1
[assign] (not #15172) justification -1: 1741 -1742
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15172
[conflict] #15172
[pop] 1 3
[assign] #15172 axiom
[assign] #6424 clause 1742 -2573
[assign] #6454 bin 1742
[decide-and-or] #6496 #6495
[push] 2
[assign] (not #6488) decision axiom
[eq-expl] #1131 root
[new-match] 20154665 #28 #27 #1131 ; #6488
[mk-app] #15173 = #6488 #6487
[mk-app] #15174 not #28
[mk-app] #15175 or #15174 #15173
[instance] 20154665 ; 1
[assign] (not #15173) justification -1: 1750 -1751
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15173
[conflict] #15173
[pop] 1 3
[assign] #15173 axiom
[assign] #6488 clause 1751 -2574
[assign] #6500 bin 1751
[decide-and-or] #6510 #6509
[push] 2
[assign] (not #6502) decision axiom
[eq-expl] #1132 root
[new-match] 1491375671 #28 #27 #1132 ; #6502
[mk-app] #15174 = #6502 #6501
[mk-app] #15175 not #28
[mk-app] #15176 or #15175 #15174
[instance] 1491375671 ; 1
[assign] (not #15174) justification -1: 1753 -1754
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15174
[conflict] #15174
[pop] 1 3
[assign] #15174 axiom
[assign] #6502 clause 1754 -2575
[assign] #6507 bin 1754
[decide-and-or] #6531 #6530
[push] 2
[assign] (not #6516) decision axiom
[eq-expl] #1134 root
[new-match] 838386922 #28 #27 #1134 ; #6516
[mk-app] #15175 = #6516 #6515
[mk-app] #15176 not #28
[mk-app] #15177 or #15176 #15175
[instance] 838386922 ; 1
[assign] (not #15175) justification -1: 1757 -1758
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15175
[conflict] #15175
[pop] 1 3
[assign] #15175 axiom
[assign] #6516 clause 1758 -2576
[assign] #6528 bin 1758
[decide-and-or] #6540 #6539
[push] 2
[assign] (not #6533) decision axiom
[eq-expl] #1133 root
[new-match] 1777099069 #28 #27 #1133 ; #6533
[mk-app] #15176 = #6533 #6532
[mk-app] #15177 not #28
[mk-app] #15178 or #15177 #15176
[instance] 1777099069 ; 1
[assign] (not #15176) justification -1: 1760 -1761
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15176
[conflict] #15176
[pop] 1 3
[assign] #15176 axiom
[assign] #6533 clause 1761 -2577
[assign] #6537 bin 1761
[decide-and-or] #13392 #6592
[push] 2
[assign] (not #6552) decision axiom
[eq-expl] #1135 root
[new-match] 1790765145 #28 #27 #1135 ; #6552
[mk-app] #15177 = #6552 #1472
[mk-app] #15178 not #28
[mk-app] #15179 or #15178 #15177
[instance] 1790765145 ; 1
[assign] (not #15177) justification -1: 743 -1766
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15177
[conflict] #15177
[pop] 1 3
[assign] #15177 axiom
[assign] #6552 clause 1766 -2578
[assign] #13391 bin 1766
[decide-and-or] #6601 #6600
[push] 2
[assign] (not #6596) decision axiom
[eq-expl] #804 root
[new-match] 3655582137 #28 #27 #804 ; #6596
[mk-app] #15178 = #6596 #6595
[mk-app] #15179 not #28
[mk-app] #15180 or #15179 #15178
[instance] 3655582137 ; 1
[assign] (not #15178) justification -1: 1769 -1770
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15178
[conflict] #15178
[pop] 1 3
[assign] #15178 axiom
[assign] #6596 clause 1770 -2579
[assign] #6598 bin 1770
[new-match] 3461499765 #6271 #6270 #1728 #120 #1728 #120 ; #6597
[decide-and-or] #6610 #6609
[push] 2
[assign] (not #6603) decision axiom
[eq-expl] #805 root
[new-match] 3495352190 #28 #27 #805 ; #6603
[mk-app] #15179 = #6603 #6602
[mk-app] #15180 not #28
[mk-app] #15181 or #15180 #15179
[instance] 3495352190 ; 1
[assign] (not #15179) justification -1: 1772 -1773
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15179
[conflict] #15179
[pop] 1 3
[assign] #15179 axiom
[assign] #6603 clause 1773 -2580
[assign] #6607 bin 1773
[decide-and-or] #6619 #6618
[push] 2
[assign] (not #6614) decision axiom
[eq-expl] #806 root
[new-match] 4005961822 #28 #27 #806 ; #6614
[mk-app] #15180 = #6614 #6613
[mk-app] #15181 not #28
[mk-app] #15182 or #15181 #15180
[instance] 4005961822 ; 1
[assign] (not #15180) justification -1: 1777 -1778
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15180
[conflict] #15180
[pop] 1 3
[assign] #15180 axiom
[assign] #6614 clause 1778 -2581
[assign] #6616 bin 1778
[new-match] 880397586 #6302 #6301 #1728 #120 #1728 #120 ; #6615
[decide-and-or] #6628 #6627
[push] 2
[assign] (not #6621) decision axiom
[eq-expl] #807 root
[new-match] 1996606411 #28 #27 #807 ; #6621
[mk-app] #15181 = #6621 #6620
[mk-app] #15182 not #28
[mk-app] #15183 or #15182 #15181
[instance] 1996606411 ; 1
[assign] (not #15181) justification -1: 1780 -1781
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15181
[conflict] #15181
[pop] 1 3
[assign] #15181 axiom
[assign] #6621 clause 1781 -2582
[assign] #6632 bin 1781
[decide-and-or] #6641 #6640
[push] 2
[assign] (not #6634) decision axiom
[eq-expl] #1136 root
[new-match] 1464901820 #28 #27 #1136 ; #6634
[mk-app] #15182 = #6634 #6633
[mk-app] #15183 not #28
[mk-app] #15184 or #15183 #15182
[instance] 1464901820 ; 1
[assign] (not #15182) justification -1: 1785 -1786
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15182
[conflict] #15182
[pop] 1 3
[assign] #15182 axiom
[assign] #6634 clause 1786 -2583
[assign] #6643 bin 1786
[decide-and-or] #6652 #6651
[push] 2
[assign] (not #6645) decision axiom
[eq-expl] #1137 root
[new-match] 1598004768 #28 #27 #1137 ; #6645
[mk-app] #15183 = #6645 #6644
[mk-app] #15184 not #28
[mk-app] #15185 or #15184 #15183
[instance] 1598004768 ; 1
[assign] (not #15183) justification -1: 1788 -1789
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15183
[conflict] #15183
[pop] 1 3
[assign] #15183 axiom
[assign] #6645 clause 1789 -2584
[assign] #6649 bin 1789
[decide-and-or] #6668 #6667
[push] 2
[assign] (not #6654) decision axiom
[eq-expl] #1139 root
[new-match] 846625900 #28 #27 #1139 ; #6654
[mk-app] #15184 = #6654 #6653
[mk-app] #15185 not #28
[mk-app] #15186 or #15185 #15184
[instance] 846625900 ; 1
[assign] (not #15184) justification -1: 1791 -1792
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15184
[conflict] #15184
[pop] 1 3
[assign] #15184 axiom
[assign] #6654 clause 1792 -2585
[assign] #6665 bin 1792
[decide-and-or] #6677 #6676
[push] 2
[assign] (not #6670) decision axiom
[eq-expl] #1138 root
[new-match] 1973016183 #28 #27 #1138 ; #6670
[mk-app] #15185 = #6670 #6669
[mk-app] #15186 not #28
[mk-app] #15187 or #15186 #15185
[instance] 1973016183 ; 1
[assign] (not #15185) justification -1: 1794 -1795
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15185
[conflict] #15185
[pop] 1 3
[assign] #15185 axiom
[assign] #6670 clause 1795 -2586
[assign] #6674 bin 1795
[decide-and-or] #13399 #6716
[push] 2
[assign] (not #6680) decision axiom
[eq-expl] #1140 root
[new-match] 2272596047 #28 #27 #1140 ; #6680
[mk-app] #15186 = #6680 #1473
[mk-app] #15187 not #28
[mk-app] #15188 or #15187 #15186
[instance] 2272596047 ; 1
[assign] (not #15186) justification -1: 744 -1799
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15186
[conflict] #15186
[pop] 1 3
[assign] #15186 axiom
[assign] #6680 clause 1799 -2587
[assign] #13398 bin 1799
[decide-and-or] #6725 #6724
[push] 2
[assign] (not #6720) decision axiom
[eq-expl] #812 root
[new-match] 3352358451 #28 #27 #812 ; #6720
[mk-app] #15187 = #6720 #6719
[mk-app] #15188 not #28
[mk-app] #15189 or #15188 #15187
[instance] 3352358451 ; 1
[assign] (not #15187) justification -1: 1802 -1803
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15187
[conflict] #15187
[pop] 1 3
[assign] #15187 axiom
[assign] #6720 clause 1803 -2588
[assign] #6722 bin 1803
[new-match] 3609850308 #6271 #6270 #1749 #120 #1749 #120 ; #6721
[decide-and-or] #6734 #6733
[push] 2
[assign] (not #6727) decision axiom
[eq-expl] #813 root
[new-match] 2255472738 #28 #27 #813 ; #6727
[mk-app] #15188 = #6727 #6726
[mk-app] #15189 not #28
[mk-app] #15190 or #15189 #15188
[instance] 2255472738 ; 1
[assign] (not #15188) justification -1: 1805 -1806
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15188
[conflict] #15188
[pop] 1 3
[assign] #15188 axiom
[assign] #6727 clause 1806 -2589
[assign] #6731 bin 1806
[decide-and-or] #6743 #6742
[push] 2
[assign] (not #6738) decision axiom
[eq-expl] #814 root
[new-match] 3808795880 #28 #27 #814 ; #6738
[mk-app] #15189 = #6738 #6737
[mk-app] #15190 not #28
[mk-app] #15191 or #15190 #15189
[instance] 3808795880 ; 1
[assign] (not #15189) justification -1: 1810 -1811
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15189
[conflict] #15189
[pop] 1 3
[assign] #15189 axiom
[assign] #6738 clause 1811 -2590
[assign] #6740 bin 1811
[new-match] 403523020 #6302 #6301 #1749 #120 #1749 #120 ; #6739
[decide-and-or] #6752 #6751
[push] 2
[assign] (not #6745) decision axiom
[eq-expl] #815 root
[new-match] 2095899537 #28 #27 #815 ; #6745
[mk-app] #15190 = #6745 #6744
[mk-app] #15191 not #28
[mk-app] #15192 or #15191 #15190
[instance] 2095899537 ; 1
[assign] (not #15190) justification -1: 1813 -1814
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15190
[conflict] #15190
[pop] 1 3
[assign] #15190 axiom
[assign] #6745 clause 1814 -2591
[assign] #6756 bin 1814
[decide-and-or] #6765 #6764
[push] 2
[assign] (not #6758) decision axiom
[eq-expl] #1141 root
[new-match] 2233313680 #28 #27 #1141 ; #6758
[mk-app] #15191 = #6758 #6757
[mk-app] #15192 not #28
[mk-app] #15193 or #15192 #15191
[instance] 2233313680 ; 1
[assign] (not #15191) justification -1: 1818 -1819
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15191
[conflict] #15191
[pop] 1 3
[assign] #15191 axiom
[assign] #6758 clause 1819 -2592
[assign] #6767 bin 1819
[decide-and-or] #6776 #6775
[push] 2
[assign] (not #6769) decision axiom
[eq-expl] #1142 root
[new-match] 1670917331 #28 #27 #1142 ; #6769
[mk-app] #15192 = #6769 #6768
[mk-app] #15193 not #28
[mk-app] #15194 or #15193 #15192
[instance] 1670917331 ; 1
[assign] (not #15192) justification -1: 1821 -1822
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15192
[conflict] #15192
[pop] 1 3
[assign] #15192 axiom
[assign] #6769 clause 1822 -2593
[assign] #6773 bin 1822
[decide-and-or] #6792 #6791
[push] 2
[assign] (not #6778) decision axiom
[eq-expl] #1144 root
[new-match] 356411399 #28 #27 #1144 ; #6778
[mk-app] #15193 = #6778 #6777
[mk-app] #15194 not #28
[mk-app] #15195 or #15194 #15193
[instance] 356411399 ; 1
[assign] (not #15193) justification -1: 1824 -1825
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15193
[conflict] #15193
[pop] 1 3
[assign] #15193 axiom
[assign] #6778 clause 1825 -2594
[assign] #6789 bin 1825
[decide-and-or] #6801 #6800
[push] 2
[assign] (not #6794) decision axiom
[eq-expl] #1143 root
[new-match] 64376110 #28 #27 #1143 ; #6794
[mk-app] #15194 = #6794 #6793
[mk-app] #15195 not #28
[mk-app] #15196 or #15195 #15194
[instance] 64376110 ; 1
[assign] (not #15194) justification -1: 1827 -1828
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15194
[conflict] #15194
[pop] 1 3
[assign] #15194 axiom
[assign] #6794 clause 1828 -2595
[assign] #6798 bin 1828
[decide-and-or] #13406 #6840
[push] 2
[assign] (not #6804) decision axiom
[eq-expl] #1145 root
[new-match] 344506152 #28 #27 #1145 ; #6804
[mk-app] #15195 = #6804 #1474
[mk-app] #15196 not #28
[mk-app] #15197 or #15196 #15195
[instance] 344506152 ; 1
[assign] (not #15195) justification -1: 745 -1832
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15195
[conflict] #15195
[pop] 2 3
[assign] #15149 axiom
[assign] #15150 axiom
[assign] #15151 axiom
[assign] #15152 axiom
[assign] #15153 axiom
[assign] #15154 axiom
[assign] #15155 axiom
[assign] #15170 axiom
[assign] #15171 axiom
[assign] #15172 axiom
[assign] #15173 axiom
[assign] #15174 axiom
[assign] #15175 axiom
[assign] #15176 axiom
[assign] #15177 axiom
[assign] #15178 axiom
[assign] #15179 axiom
[assign] #15180 axiom
[assign] #15181 axiom
[assign] #15182 axiom
[assign] #15183 axiom
[assign] #15184 axiom
[assign] #15185 axiom
[assign] #15186 axiom
[assign] #15187 axiom
[assign] #15188 axiom
[assign] #15189 axiom
[assign] #15190 axiom
[assign] #15191 axiom
[assign] #15192 axiom
[assign] #15193 axiom
[assign] #15194 axiom
[assign] #15195 axiom
[assign] #6126 clause 1706 -2557
[assign] #6164 clause 1708 -2558
[assign] #6181 clause 1710 -2559
[assign] #6193 clause 1712 -2560
[assign] #6226 clause 1716 -2561
[assign] #6251 clause 1719 -2562
[assign] #6280 clause 1725 -2563
[assign] #6288 clause 1728 -2564
[assign] #6417 clause 1739 -2565
[assign] #6424 clause 1742 -2566
[assign] #6488 clause 1751 -2567
[assign] #6502 clause 1754 -2568
[assign] #6516 clause 1758 -2569
[assign] #6533 clause 1761 -2570
[assign] #6552 clause 1766 -2571
[assign] #6596 clause 1770 -2572
[assign] #6603 clause 1773 -2573
[assign] #6614 clause 1778 -2574
[assign] #6621 clause 1781 -2575
[assign] #6634 clause 1786 -2576
[assign] #6645 clause 1789 -2577
[assign] #6654 clause 1792 -2578
[assign] #6670 clause 1795 -2579
[assign] #6680 clause 1799 -2580
[assign] #6720 clause 1803 -2581
[assign] #6727 clause 1806 -2582
[assign] #6738 clause 1811 -2583
[assign] #6745 clause 1814 -2584
[assign] #6758 clause 1819 -2585
[assign] #6769 clause 1822 -2586
[assign] #6778 clause 1825 -2587
[assign] #6794 clause 1828 -2588
[assign] #6804 clause 1832 -2589
[assign] #13317 bin 1706
[assign] #13319 bin 1708
[assign] #13321 bin 1710
[assign] #13323 bin 1712
[assign] #6237 bin 1716
[assign] #6263 bin 1719
[assign] #6283 bin 1725
[assign] #6293 bin 1728
[assign] #6419 bin 1739
[assign] #6454 bin 1742
[assign] #6500 bin 1751
[assign] #6507 bin 1754
[assign] #6528 bin 1758
[assign] #6537 bin 1761
[assign] #13391 bin 1766
[assign] #6598 bin 1770
[assign] #6607 bin 1773
[assign] #6616 bin 1778
[assign] #6632 bin 1781
[assign] #6643 bin 1786
[assign] #6649 bin 1789
[assign] #6665 bin 1792
[assign] #6674 bin 1795
[assign] #13398 bin 1799
[assign] #6722 bin 1803
[assign] #6731 bin 1806
[assign] #6740 bin 1811
[assign] #6756 bin 1814
[assign] #6767 bin 1819
[assign] #6773 bin 1822
[assign] #6789 bin 1825
[assign] #6798 bin 1828
[assign] #13405 bin 1832
[new-match] 1639557372 #164 #163 #1 ; #6282
[new-match] 1502941733 #6271 #6270 #1707 #120 #1707 #120 ; #6281
[new-match] 3461499765 #6271 #6270 #1728 #120 #1728 #120 ; #6597
[new-match] 3609850308 #6271 #6270 #1749 #120 #1749 #120 ; #6721
[new-match] 4148604941 #6302 #6301 #1707 #120 #1707 #120 ; #6418
[new-match] 880397586 #6302 #6301 #1728 #120 #1728 #120 ; #6615
[new-match] 403523020 #6302 #6301 #1749 #120 #1749 #120 ; #6739
[inst-discovered] theory-solving 0x0 basic# ; #15157
[mk-app] #15113 = #15157 #15156
[instance] 0x0 #15113
[attach-enode] #15113 0
[end-of-instance]
[mk-app] #15113 not #164
[mk-app] #15114 or #15113 #15156
[instance] 1639557372 ; 1
[attach-enode] #15156 1
[assign] #15156 justification -1: 24
[end-of-instance]
[mk-app] #15115 not #6271
[mk-app] #15196 or #15115 #15160
[instance] 1502941733 ; 1
[attach-enode] #15160 1
[assign] #15160 justification -1: 1722
[end-of-instance]
[eq-expl] #6281 lit #6283 ; #6282
[new-match] 3295295923 #183 #179 #6281 ; #15160 (#135 #135)
[new-match] 1176310629 #138 #137 #1 ; #15160 (#135 #135) (#6281 #6282)
[mk-app] #15197 not #183
[mk-app] #15168 or #15197 #15164 #15166
[instance] 3295295923 ; 2
[attach-enode] #15163 2
[attach-enode] #15165 2
[attach-enode] #15166 2
[end-of-instance]
[assign] #15163 justification -1: 2591 1726
[assign] #15166 justification -1: 2590
[decide-and-or] #274 #271
[push] 1
[assign] #271 decision axiom
[mk-app] #15169 = #284 #7151
[mk-app] #15161 <= #7151 #284
[mk-app] #15162 >= #7151 #284
[assign] #15169 justification -1: 42 38
[attach-enode] #15169 0
[assign] #15161 justification -1: 2594
[assign] #15162 justification -1: 2594
[decide-and-or] #6849 #6848
[push] 2
[assign] (not #6844) decision axiom
[eq-expl] #820 root
[new-match] 3193870421 #28 #27 #820 ; #6844
[mk-app] #15158 = #6844 #6843
[mk-app] #15159 not #28
[mk-app] #15198 or #15159 #15158
[instance] 3193870421 ; 1
[assign] (not #15158) justification -1: 1835 -1836
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15158
[conflict] #15158
[pop] 1 3
[assign] #15158 axiom
[assign] #6844 clause 1836 -2597
[assign] #6846 bin 1836
[new-match] 46945840 #6271 #6270 #1770 #120 #1770 #120 ; #6845
[decide-and-or] #6858 #6857
[push] 2
[assign] (not #6851) decision axiom
[eq-expl] #821 root
[new-match] 2597038954 #28 #27 #821 ; #6851
[mk-app] #15159 = #6851 #6850
[mk-app] #15198 not #28
[mk-app] #15199 or #15198 #15159
[instance] 2597038954 ; 1
[assign] (not #15159) justification -1: 1838 -1839
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15159
[conflict] #15159
[pop] 1 3
[assign] #15159 axiom
[assign] #6851 clause 1839 -2598
[assign] #6855 bin 1839
[decide-and-or] #6867 #6866
[push] 2
[assign] (not #6862) decision axiom
[eq-expl] #822 root
[new-match] 296138103 #28 #27 #822 ; #6862
[mk-app] #15198 = #6862 #6861
[mk-app] #15199 not #28
[mk-app] #15200 or #15199 #15198
[instance] 296138103 ; 1
[assign] (not #15198) justification -1: 1843 -1844
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15198
[conflict] #15198
[pop] 1 3
[assign] #15198 axiom
[assign] #6862 clause 1844 -2599
[assign] #6864 bin 1844
[new-match] 435487822 #6302 #6301 #1770 #120 #1770 #120 ; #6863
[decide-and-or] #6876 #6875
[push] 2
[assign] (not #6869) decision axiom
[eq-expl] #823 root
[new-match] 1533849820 #28 #27 #823 ; #6869
[mk-app] #15199 = #6869 #6868
[mk-app] #15200 not #28
[mk-app] #15201 or #15200 #15199
[instance] 1533849820 ; 1
[assign] (not #15199) justification -1: 1846 -1847
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15199
[conflict] #15199
[pop] 1 3
[assign] #15199 axiom
[assign] #6869 clause 1847 -2600
[assign] #6880 bin 1847
[decide-and-or] #6889 #6888
[push] 2
[assign] (not #6882) decision axiom
[eq-expl] #1146 root
[new-match] 3731793058 #28 #27 #1146 ; #6882
[mk-app] #15200 = #6882 #6881
[mk-app] #15201 not #28
[mk-app] #15202 or #15201 #15200
[instance] 3731793058 ; 1
[assign] (not #15200) justification -1: 1851 -1852
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15200
[conflict] #15200
[pop] 1 3
[assign] #15200 axiom
[assign] #6882 clause 1852 -2601
[assign] #6891 bin 1852
[decide-and-or] #6900 #6899
[push] 2
[assign] (not #6893) decision axiom
[eq-expl] #1147 root
[new-match] 1417988937 #28 #27 #1147 ; #6893
[mk-app] #15201 = #6893 #6892
[mk-app] #15202 not #28
[mk-app] #15203 or #15202 #15201
[instance] 1417988937 ; 1
[assign] (not #15201) justification -1: 1854 -1855
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15201
[conflict] #15201
[pop] 1 3
[assign] #15201 axiom
[assign] #6893 clause 1855 -2602
[assign] #6897 bin 1855
[decide-and-or] #6916 #6915
[push] 2
[assign] (not #6902) decision axiom
[eq-expl] #1149 root
[new-match] 1701348997 #28 #27 #1149 ; #6902
[mk-app] #15202 = #6902 #6901
[mk-app] #15203 not #28
[mk-app] #15204 or #15203 #15202
[instance] 1701348997 ; 1
[assign] (not #15202) justification -1: 1857 -1858
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15202
[conflict] #15202
[pop] 1 3
[assign] #15202 axiom
[assign] #6902 clause 1858 -2603
[assign] #6913 bin 1858
[decide-and-or] #6925 #6924
[push] 2
[assign] (not #6918) decision axiom
[eq-expl] #1148 root
[new-match] 3853401133 #28 #27 #1148 ; #6918
[mk-app] #15203 = #6918 #6917
[mk-app] #15204 not #28
[mk-app] #15205 or #15204 #15203
[instance] 3853401133 ; 1
[assign] (not #15203) justification -1: 1860 -1861
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15203
[conflict] #15203
[pop] 1 3
[assign] #15203 axiom
[assign] #6918 clause 1861 -2604
[assign] #6922 bin 1861
[decide-and-or] #13413 #6964
[push] 2
[assign] (not #6928) decision axiom
[eq-expl] #1150 root
[new-match] 1327666914 #28 #27 #1150 ; #6928
[mk-app] #15204 = #6928 #1475
[mk-app] #15205 not #28
[mk-app] #15206 or #15205 #15204
[instance] 1327666914 ; 1
[assign] (not #15204) justification -1: 746 -1865
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15204
[conflict] #15204
[pop] 1 3
[assign] #15204 axiom
[assign] #6928 clause 1865 -2605
[assign] #13412 bin 1865
[decide-and-or] #6973 #6972
[push] 2
[assign] (not #6968) decision axiom
[eq-expl] #828 root
[new-match] 1566834236 #28 #27 #828 ; #6968
[mk-app] #15205 = #6968 #6967
[mk-app] #15206 not #28
[mk-app] #15207 or #15206 #15205
[instance] 1566834236 ; 1
[assign] (not #15205) justification -1: 1868 -1869
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15205
[conflict] #15205
[pop] 1 3
[assign] #15205 axiom
[assign] #6968 clause 1869 -2606
[assign] #6970 bin 1869
[new-match] 142117350 #6271 #6270 #1791 #120 #1791 #120 ; #6969
[decide-and-or] #6982 #6981
[push] 2
[assign] (not #6975) decision axiom
[eq-expl] #829 root
[new-match] 1303896865 #28 #27 #829 ; #6975
[mk-app] #15206 = #6975 #6974
[mk-app] #15207 not #28
[mk-app] #15208 or #15207 #15206
[instance] 1303896865 ; 1
[assign] (not #15206) justification -1: 1871 -1872
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15206
[conflict] #15206
[pop] 1 3
[assign] #15206 axiom
[assign] #6975 clause 1872 -2607
[assign] #6979 bin 1872
[decide-and-or] #6991 #6990
[push] 2
[assign] (not #6986) decision axiom
[eq-expl] #830 root
[new-match] 2002570710 #28 #27 #830 ; #6986
[mk-app] #15207 = #6986 #6985
[mk-app] #15208 not #28
[mk-app] #15209 or #15208 #15207
[instance] 2002570710 ; 1
[assign] (not #15207) justification -1: 1876 -1877
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15207
[conflict] #15207
[pop] 1 3
[assign] #15207 axiom
[assign] #6986 clause 1877 -2608
[assign] #6988 bin 1877
[new-match] 1939635150 #6302 #6301 #1791 #120 #1791 #120 ; #6987
[decide-and-or] #7000 #6999
[push] 2
[assign] (not #6993) decision axiom
[eq-expl] #831 root
[new-match] 3427402286 #28 #27 #831 ; #6993
[mk-app] #15208 = #6993 #6992
[mk-app] #15209 not #28
[mk-app] #15210 or #15209 #15208
[instance] 3427402286 ; 1
[assign] (not #15208) justification -1: 1879 -1880
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15208
[conflict] #15208
[pop] 1 3
[assign] #15208 axiom
[assign] #6993 clause 1880 -2609
[assign] #7004 bin 1880
[decide-and-or] #7013 #7012
[push] 2
[assign] (not #7006) decision axiom
[eq-expl] #1151 root
[new-match] 3827464483 #28 #27 #1151 ; #7006
[mk-app] #15209 = #7006 #7005
[mk-app] #15210 not #28
[mk-app] #15211 or #15210 #15209
[instance] 3827464483 ; 1
[assign] (not #15209) justification -1: 1884 -1885
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15209
[conflict] #15209
[pop] 1 3
[assign] #15209 axiom
[assign] #7006 clause 1885 -2610
[assign] #7015 bin 1885
[decide-and-or] #7024 #7023
[push] 2
[assign] (not #7017) decision axiom
[eq-expl] #1152 root
[new-match] 3501234 #28 #27 #1152 ; #7017
[mk-app] #15210 = #7017 #7016
[mk-app] #15211 not #28
[mk-app] #15212 or #15211 #15210
[instance] 3501234 ; 1
[assign] (not #15210) justification -1: 1887 -1888
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15210
[conflict] #15210
[pop] 1 3
[assign] #15210 axiom
[assign] #7017 clause 1888 -2611
[assign] #7021 bin 1888
[decide-and-or] #7039 #7038
[push] 2
[assign] (not #7026) decision axiom
[eq-expl] #1154 root
[new-match] 273634410 #28 #27 #1154 ; #7026
[mk-app] #15211 = #7026 #7025
[mk-app] #15212 not #28
[mk-app] #15213 or #15212 #15211
[instance] 273634410 ; 1
[assign] (not #15211) justification -1: 1890 -1891
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15211
[conflict] #15211
[pop] 1 3
[assign] #15211 axiom
[assign] #7026 clause 1891 -2612
[assign] #7036 bin 1891
[decide-and-or] #7048 #7047
[push] 2
[assign] (not #7041) decision axiom
[eq-expl] #1153 root
[new-match] 3689029062 #28 #27 #1153 ; #7041
[mk-app] #15212 = #7041 #7040
[mk-app] #15213 not #28
[mk-app] #15214 or #15213 #15212
[instance] 3689029062 ; 1
[assign] (not #15212) justification -1: 1893 -1894
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15212
[conflict] #15212
[pop] 1 3
[assign] #15212 axiom
[assign] #7041 clause 1894 -2613
[assign] #7045 bin 1894
[decide-and-or] #13420 #7087
[push] 2
[assign] (not #7051) decision axiom
[eq-expl] #1155 root
[new-match] 384513936 #28 #27 #1155 ; #7051
[mk-app] #15213 = #7051 #1476
[mk-app] #15214 not #28
[mk-app] #15215 or #15214 #15213
[instance] 384513936 ; 1
[assign] (not #15213) justification -1: 747 -1898
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15213
[conflict] #15213
[pop] 1 3
[assign] #15213 axiom
[assign] #7051 clause 1898 -2614
[assign] #13419 bin 1898
[decide-and-or] #7096 #7095
[push] 2
[assign] (not #7091) decision axiom
[eq-expl] #836 root
[new-match] 64793752 #28 #27 #836 ; #7091
[mk-app] #15214 = #7091 #7090
[mk-app] #15215 not #28
[mk-app] #15216 or #15215 #15214
[instance] 64793752 ; 1
[assign] (not #15214) justification -1: 1901 -1902
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15214
[conflict] #15214
[pop] 1 3
[assign] #15214 axiom
[assign] #7091 clause 1902 -2615
[assign] #7093 bin 1902
[new-match] 3820939827 #6271 #6270 #203 #120 #203 #120 ; #7092
[decide-and-or] #7105 #7104
[push] 2
[assign] (not #7098) decision axiom
[eq-expl] #837 root
[new-match] 2925424102 #28 #27 #837 ; #7098
[mk-app] #15215 = #7098 #7097
[mk-app] #15216 not #28
[mk-app] #15217 or #15216 #15215
[instance] 2925424102 ; 1
[assign] (not #15215) justification -1: 1904 -1905
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15215
[conflict] #15215
[pop] 1 3
[assign] #15215 axiom
[assign] #7098 clause 1905 -2616
[assign] #7102 bin 1905
[decide-and-or] #7114 #7113
[push] 2
[assign] (not #7109) decision axiom
[eq-expl] #838 root
[new-match] 864769908 #28 #27 #838 ; #7109
[mk-app] #15216 = #7109 #7108
[mk-app] #15217 not #28
[mk-app] #15218 or #15217 #15216
[instance] 864769908 ; 1
[assign] (not #15216) justification -1: 1909 -1910
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15216
[conflict] #15216
[pop] 1 3
[assign] #15216 axiom
[assign] #7109 clause 1910 -2617
[assign] #7111 bin 1910
[new-match] 3361396136 #6302 #6301 #203 #120 #203 #120 ; #7110
[decide-and-or] #7123 #7122
[push] 2
[assign] (not #7116) decision axiom
[eq-expl] #839 root
[new-match] 3451268967 #28 #27 #839 ; #7116
[mk-app] #15217 = #7116 #7115
[mk-app] #15218 not #28
[mk-app] #15219 or #15218 #15217
[instance] 3451268967 ; 1
[assign] (not #15217) justification -1: 1912 -1913
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15217
[conflict] #15217
[pop] 1 3
[assign] #15217 axiom
[assign] #7116 clause 1913 -2618
[assign] #7127 bin 1913
[decide-and-or] #7136 #7135
[push] 2
[assign] (not #7129) decision axiom
[eq-expl] #1156 root
[new-match] 535634748 #28 #27 #1156 ; #7129
[mk-app] #15218 = #7129 #7128
[mk-app] #15219 not #28
[mk-app] #15220 or #15219 #15218
[instance] 535634748 ; 1
[assign] (not #15218) justification -1: 1917 -1918
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15218
[conflict] #15218
[pop] 1 3
[assign] #15218 axiom
[assign] #7129 clause 1918 -2619
[assign] #7138 bin 1918
[decide-and-or] #7147 #7146
[push] 2
[assign] (not #7140) decision axiom
[eq-expl] #1157 root
[new-match] 2823756208 #28 #27 #1157 ; #7140
[mk-app] #15219 = #7140 #7139
[mk-app] #15220 not #28
[mk-app] #15221 or #15220 #15219
[instance] 2823756208 ; 1
[assign] (not #15219) justification -1: 1920 -1921
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15219
[conflict] #15219
[pop] 1 3
[assign] #15219 axiom
[assign] #7140 clause 1921 -2620
[assign] #7144 bin 1921
[decide-and-or] #7163 #7165
[push] 2
[assign] (not #7149) decision axiom
[eq-expl] #1159 root
[new-match] 1372226206 #28 #27 #1159 ; #7149
[mk-app] #15220 = #7149 #7148
[mk-app] #15221 not #28
[mk-app] #15222 or #15221 #15220
[instance] 1372226206 ; 1
[assign] (not #15220) justification -1: 1923 -1924
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15220
[conflict] #15220
[pop] 1 3
[assign] #15220 axiom
[assign] #7149 clause 1924 -2621
[assign] #7172 bin 1924
[decide-and-or] #7180 #7179
[push] 2
[assign] (not #7173) decision axiom
[eq-expl] #1158 root
[new-match] 2715239587 #28 #27 #1158 ; #7173
[mk-app] #15221 = #7173 #7164
[mk-app] #15222 not #28
[mk-app] #15223 or #15222 #15221
[instance] 2715239587 ; 1
[assign] (not #15221) justification -1: 1926 -1927
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15221
[conflict] #15221
[pop] 1 3
[assign] #15221 axiom
[assign] #7173 clause 1927 -2622
[assign] #7177 bin 1927
[decide-and-or] #13427 #7218
[push] 2
[assign] (not #7183) decision axiom
[eq-expl] #1160 root
[new-match] 633268062 #28 #27 #1160 ; #7183
[mk-app] #15222 = #7183 #1477
[mk-app] #15223 not #28
[mk-app] #15224 or #15223 #15222
[instance] 633268062 ; 1
[assign] (not #15222) justification -1: 748 -1931
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15222
[conflict] #15222
[pop] 1 3
[assign] #15222 axiom
[assign] #7183 clause 1931 -2623
[assign] #13426 bin 1931
[decide-and-or] #7227 #7226
[push] 2
[assign] (not #7222) decision axiom
[eq-expl] #800 root
[new-match] 3333864036 #28 #27 #800 ; #7222
[mk-app] #15223 = #7222 #7221
[mk-app] #15224 not #28
[mk-app] #15225 or #15224 #15223
[instance] 3333864036 ; 1
[assign] (not #15223) justification -1: 1934 -1935
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15223
[conflict] #15223
[pop] 1 3
[assign] #15223 axiom
[assign] #7222 clause 1935 -2624
[assign] #7224 bin 1935
[new-match] 2762546992 #6271 #6270 #1812 #120 #1812 #120 ; #7223
[decide-and-or] #7236 #7235
[push] 2
[assign] (not #7229) decision axiom
[eq-expl] #801 root
[new-match] 3280092794 #28 #27 #801 ; #7229
[mk-app] #15224 = #7229 #7228
[mk-app] #15225 not #28
[mk-app] #15226 or #15225 #15224
[instance] 3280092794 ; 1
[assign] (not #15224) justification -1: 1937 -1938
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15224
[conflict] #15224
[pop] 1 3
[assign] #15224 axiom
[assign] #7229 clause 1938 -2625
[assign] #7233 bin 1938
[decide-and-or] #7245 #7244
[push] 2
[assign] (not #7240) decision axiom
[eq-expl] #802 root
[new-match] 103970789 #28 #27 #802 ; #7240
[mk-app] #15225 = #7240 #7239
[mk-app] #15226 not #28
[mk-app] #15227 or #15226 #15225
[instance] 103970789 ; 1
[assign] (not #15225) justification -1: 1942 -1943
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15225
[conflict] #15225
[pop] 1 3
[assign] #15225 axiom
[assign] #7240 clause 1943 -2626
[assign] #7242 bin 1943
[new-match] 1195160552 #6302 #6301 #1812 #120 #1812 #120 ; #7241
[decide-and-or] #7254 #7253
[push] 2
[assign] (not #7247) decision axiom
[eq-expl] #803 root
[new-match] 822413432 #28 #27 #803 ; #7247
[mk-app] #15226 = #7247 #7246
[mk-app] #15227 not #28
[mk-app] #15228 or #15227 #15226
[instance] 822413432 ; 1
[assign] (not #15226) justification -1: 1945 -1946
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15226
[conflict] #15226
[pop] 1 3
[assign] #15226 axiom
[assign] #7247 clause 1946 -2627
[assign] #7258 bin 1946
[decide-and-or] #7267 #7266
[push] 2
[assign] (not #7260) decision axiom
[eq-expl] #1161 root
[new-match] 1546718035 #28 #27 #1161 ; #7260
[mk-app] #15227 = #7260 #7259
[mk-app] #15228 not #28
[mk-app] #15229 or #15228 #15227
[instance] 1546718035 ; 1
[assign] (not #15227) justification -1: 1950 -1951
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15227
[conflict] #15227
[pop] 1 3
[assign] #15227 axiom
[assign] #7260 clause 1951 -2628
[assign] #7269 bin 1951
[decide-and-or] #7278 #7277
[push] 2
[assign] (not #7271) decision axiom
[eq-expl] #1162 root
[new-match] 221727246 #28 #27 #1162 ; #7271
[mk-app] #15228 = #7271 #7270
[mk-app] #15229 not #28
[mk-app] #15230 or #15229 #15228
[instance] 221727246 ; 1
[assign] (not #15228) justification -1: 1953 -1954
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15228
[conflict] #15228
[pop] 2 3
[assign] #15158 axiom
[assign] #15159 axiom
[assign] #15198 axiom
[assign] #15199 axiom
[assign] #15200 axiom
[assign] #15201 axiom
[assign] #15202 axiom
[assign] #15203 axiom
[assign] #15204 axiom
[assign] #15205 axiom
[assign] #15206 axiom
[assign] #15207 axiom
[assign] #15208 axiom
[assign] #15209 axiom
[assign] #15210 axiom
[assign] #15211 axiom
[assign] #15212 axiom
[assign] #15213 axiom
[assign] #15214 axiom
[assign] #15215 axiom
[assign] #15216 axiom
[assign] #15217 axiom
[assign] #15218 axiom
[assign] #15219 axiom
[assign] #15220 axiom
[assign] #15221 axiom
[assign] #15222 axiom
[assign] #15223 axiom
[assign] #15224 axiom
[assign] #15225 axiom
[assign] #15226 axiom
[assign] #15227 axiom
[assign] #15228 axiom
[assign] #6844 clause 1836 -2594
[assign] #6851 clause 1839 -2595
[assign] #6862 clause 1844 -2596
[assign] #6869 clause 1847 -2597
[assign] #6882 clause 1852 -2598
[assign] #6893 clause 1855 -2599
[assign] #6902 clause 1858 -2600
[assign] #6918 clause 1861 -2601
[assign] #6928 clause 1865 -2602
[assign] #6968 clause 1869 -2603
[assign] #6975 clause 1872 -2604
[assign] #6986 clause 1877 -2605
[assign] #6993 clause 1880 -2606
[assign] #7006 clause 1885 -2607
[assign] #7017 clause 1888 -2608
[assign] #7026 clause 1891 -2609
[assign] #7041 clause 1894 -2610
[assign] #7051 clause 1898 -2611
[assign] #7091 clause 1902 -2612
[assign] #7098 clause 1905 -2613
[assign] #7109 clause 1910 -2614
[assign] #7116 clause 1913 -2615
[assign] #7129 clause 1918 -2616
[assign] #7140 clause 1921 -2617
[assign] #7149 clause 1924 -2618
[assign] #7173 clause 1927 -2619
[assign] #7183 clause 1931 -2620
[assign] #7222 clause 1935 -2621
[assign] #7229 clause 1938 -2622
[assign] #7240 clause 1943 -2623
[assign] #7247 clause 1946 -2624
[assign] #7260 clause 1951 -2625
[assign] #7271 clause 1954 -2626
[assign] #6846 bin 1836
[assign] #6855 bin 1839
[assign] #6864 bin 1844
[assign] #6880 bin 1847
[assign] #6891 bin 1852
[assign] #6897 bin 1855
[assign] #6913 bin 1858
[assign] #6922 bin 1861
[assign] #13412 bin 1865
[assign] #6970 bin 1869
[assign] #6979 bin 1872
[assign] #6988 bin 1877
[assign] #7004 bin 1880
[assign] #7015 bin 1885
[assign] #7021 bin 1888
[assign] #7036 bin 1891
[assign] #7045 bin 1894
[assign] #13419 bin 1898
[assign] #7093 bin 1902
[assign] #7102 bin 1905
[assign] #7111 bin 1910
[assign] #7127 bin 1913
[assign] #7138 bin 1918
[assign] #7144 bin 1921
[assign] #7172 bin 1924
[assign] #7177 bin 1927
[assign] #13426 bin 1931
[assign] #7224 bin 1935
[assign] #7233 bin 1938
[assign] #7242 bin 1943
[assign] #7258 bin 1946
[assign] #7269 bin 1951
[assign] #7275 bin 1954
[new-match] 46945840 #6271 #6270 #1770 #120 #1770 #120 ; #6845
[new-match] 142117350 #6271 #6270 #1791 #120 #1791 #120 ; #6969
[new-match] 3820939827 #6271 #6270 #203 #120 #203 #120 ; #7092
[new-match] 2762546992 #6271 #6270 #1812 #120 #1812 #120 ; #7223
[new-match] 435487822 #6302 #6301 #1770 #120 #1770 #120 ; #6863
[new-match] 1939635150 #6302 #6301 #1791 #120 #1791 #120 ; #6987
[new-match] 3361396136 #6302 #6301 #203 #120 #203 #120 ; #7110
[new-match] 1195160552 #6302 #6301 #1812 #120 #1812 #120 ; #7241
[decide-and-or] #274 #271
[push] 1
[assign] #271 decision axiom
[mk-app] #15169 = #284 #7151
[mk-app] #15161 <= #7151 #284
[mk-app] #15162 >= #7151 #284
[assign] #15169 justification -1: 42 38
[attach-enode] #15169 0
[assign] #15161 justification -1: 2627
[assign] #15162 justification -1: 2627
[decide-and-or] #7294 #7293
[push] 2
[assign] (not #7280) decision axiom
[eq-expl] #1164 root
[new-match] 3042507577 #28 #27 #1164 ; #7280
[mk-app] #15229 = #7280 #7279
[mk-app] #15230 not #28
[mk-app] #15231 or #15230 #15229
[instance] 3042507577 ; 1
[assign] (not #15229) justification -1: 1956 -1957
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15229
[conflict] #15229
[pop] 1 3
[assign] #15229 axiom
[assign] #7280 clause 1957 -2630
[assign] #7291 bin 1957
[decide-and-or] #7303 #7302
[push] 2
[assign] (not #7296) decision axiom
[eq-expl] #1163 root
[new-match] 1653083918 #28 #27 #1163 ; #7296
[mk-app] #15230 = #7296 #7295
[mk-app] #15231 not #28
[mk-app] #15232 or #15231 #15230
[instance] 1653083918 ; 1
[assign] (not #15230) justification -1: 1959 -1960
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15230
[conflict] #15230
[pop] 1 3
[assign] #15230 axiom
[assign] #7296 clause 1960 -2631
[assign] #7300 bin 1960
[decide-and-or] #13434 #7342
[push] 2
[assign] (not #7306) decision axiom
[eq-expl] #1165 root
[new-match] 59095065 #28 #27 #1165 ; #7306
[mk-app] #15231 = #7306 #1478
[mk-app] #15232 not #28
[mk-app] #15233 or #15232 #15231
[instance] 59095065 ; 1
[assign] (not #15231) justification -1: 749 -1964
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15231
[conflict] #15231
[pop] 1 3
[assign] #15231 axiom
[assign] #7306 clause 1964 -2632
[assign] #13433 bin 1964
[decide-and-or] #7351 #7350
[push] 2
[assign] (not #7346) decision axiom
[eq-expl] #808 root
[new-match] 1653266013 #28 #27 #808 ; #7346
[mk-app] #15232 = #7346 #7345
[mk-app] #15233 not #28
[mk-app] #15234 or #15233 #15232
[instance] 1653266013 ; 1
[assign] (not #15232) justification -1: 1967 -1968
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15232
[conflict] #15232
[pop] 1 3
[assign] #15232 axiom
[assign] #7346 clause 1968 -2633
[assign] #7348 bin 1968
[new-match] 249661825 #6271 #6270 #1833 #120 #1833 #120 ; #7347
[decide-and-or] #7360 #7359
[push] 2
[assign] (not #7353) decision axiom
[eq-expl] #809 root
[new-match] 2239000128 #28 #27 #809 ; #7353
[mk-app] #15233 = #7353 #7352
[mk-app] #15234 not #28
[mk-app] #15235 or #15234 #15233
[instance] 2239000128 ; 1
[assign] (not #15233) justification -1: 1970 -1971
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15233
[conflict] #15233
[pop] 1 3
[assign] #15233 axiom
[assign] #7353 clause 1971 -2634
[assign] #7357 bin 1971
[decide-and-or] #7369 #7368
[push] 2
[assign] (not #7364) decision axiom
[eq-expl] #810 root
[new-match] 4125369774 #28 #27 #810 ; #7364
[mk-app] #15234 = #7364 #7363
[mk-app] #15235 not #28
[mk-app] #15236 or #15235 #15234
[instance] 4125369774 ; 1
[assign] (not #15234) justification -1: 1975 -1976
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15234
[conflict] #15234
[pop] 1 3
[assign] #15234 axiom
[assign] #7364 clause 1976 -2635
[assign] #7366 bin 1976
[new-match] 2871989605 #6302 #6301 #1833 #120 #1833 #120 ; #7365
[decide-and-or] #7378 #7377
[push] 2
[assign] (not #7371) decision axiom
[eq-expl] #811 root
[new-match] 2263412657 #28 #27 #811 ; #7371
[mk-app] #15235 = #7371 #7370
[mk-app] #15236 not #28
[mk-app] #15237 or #15236 #15235
[instance] 2263412657 ; 1
[assign] (not #15235) justification -1: 1978 -1979
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15235
[conflict] #15235
[pop] 1 3
[assign] #15235 axiom
[assign] #7371 clause 1979 -2636
[assign] #7382 bin 1979
[decide-and-or] #7391 #7390
[push] 2
[assign] (not #7384) decision axiom
[eq-expl] #1166 root
[new-match] 2703470917 #28 #27 #1166 ; #7384
[mk-app] #15236 = #7384 #7383
[mk-app] #15237 not #28
[mk-app] #15238 or #15237 #15236
[instance] 2703470917 ; 1
[assign] (not #15236) justification -1: 1983 -1984
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15236
[conflict] #15236
[pop] 1 3
[assign] #15236 axiom
[assign] #7384 clause 1984 -2637
[assign] #7393 bin 1984
[decide-and-or] #7402 #7401
[push] 2
[assign] (not #7395) decision axiom
[eq-expl] #1167 root
[new-match] 933264077 #28 #27 #1167 ; #7395
[mk-app] #15237 = #7395 #7394
[mk-app] #15238 not #28
[mk-app] #15239 or #15238 #15237
[instance] 933264077 ; 1
[assign] (not #15237) justification -1: 1986 -1987
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15237
[conflict] #15237
[pop] 1 3
[assign] #15237 axiom
[assign] #7395 clause 1987 -2638
[assign] #7399 bin 1987
[decide-and-or] #7418 #7417
[push] 2
[assign] (not #7404) decision axiom
[eq-expl] #1169 root
[new-match] 212067361 #28 #27 #1169 ; #7404
[mk-app] #15238 = #7404 #7403
[mk-app] #15239 not #28
[mk-app] #15240 or #15239 #15238
[instance] 212067361 ; 1
[assign] (not #15238) justification -1: 1989 -1990
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15238
[conflict] #15238
[pop] 1 3
[assign] #15238 axiom
[assign] #7404 clause 1990 -2639
[assign] #7415 bin 1990
[decide-and-or] #7427 #7426
[push] 2
[assign] (not #7420) decision axiom
[eq-expl] #1168 root
[new-match] 3497253679 #28 #27 #1168 ; #7420
[mk-app] #15239 = #7420 #7419
[mk-app] #15240 not #28
[mk-app] #15241 or #15240 #15239
[instance] 3497253679 ; 1
[assign] (not #15239) justification -1: 1992 -1993
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15239
[conflict] #15239
[pop] 1 3
[assign] #15239 axiom
[assign] #7420 clause 1993 -2640
[assign] #7424 bin 1993
[decide-and-or] #13441 #7466
[push] 2
[assign] (not #7430) decision axiom
[eq-expl] #1170 root
[new-match] 941011303 #28 #27 #1170 ; #7430
[mk-app] #15240 = #7430 #1479
[mk-app] #15241 not #28
[mk-app] #15242 or #15241 #15240
[instance] 941011303 ; 1
[assign] (not #15240) justification -1: 750 -1997
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15240
[conflict] #15240
[pop] 1 3
[assign] #15240 axiom
[assign] #7430 clause 1997 -2641
[assign] #13440 bin 1997
[decide-and-or] #7475 #7474
[push] 2
[assign] (not #7470) decision axiom
[eq-expl] #816 root
[new-match] 2206289422 #28 #27 #816 ; #7470
[mk-app] #15241 = #7470 #7469
[mk-app] #15242 not #28
[mk-app] #15243 or #15242 #15241
[instance] 2206289422 ; 1
[assign] (not #15241) justification -1: 2000 -2001
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15241
[conflict] #15241
[pop] 1 3
[assign] #15241 axiom
[assign] #7470 clause 2001 -2642
[assign] #7472 bin 2001
[new-match] 1498700065 #6271 #6270 #1854 #120 #1854 #120 ; #7471
[decide-and-or] #7484 #7483
[push] 2
[assign] (not #7477) decision axiom
[eq-expl] #817 root
[new-match] 3888131400 #28 #27 #817 ; #7477
[mk-app] #15242 = #7477 #7476
[mk-app] #15243 not #28
[mk-app] #15244 or #15243 #15242
[instance] 3888131400 ; 1
[assign] (not #15242) justification -1: 2003 -2004
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15242
[conflict] #15242
[pop] 1 3
[assign] #15242 axiom
[assign] #7477 clause 2004 -2643
[assign] #7481 bin 2004
[decide-and-or] #7493 #7492
[push] 2
[assign] (not #7488) decision axiom
[eq-expl] #818 root
[new-match] 1642142598 #28 #27 #818 ; #7488
[mk-app] #15243 = #7488 #7487
[mk-app] #15244 not #28
[mk-app] #15245 or #15244 #15243
[instance] 1642142598 ; 1
[assign] (not #15243) justification -1: 2008 -2009
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15243
[conflict] #15243
[pop] 1 3
[assign] #15243 axiom
[assign] #7488 clause 2009 -2644
[assign] #7490 bin 2009
[new-match] 2642540511 #6302 #6301 #1854 #120 #1854 #120 ; #7489
[decide-and-or] #7502 #7501
[push] 2
[assign] (not #7495) decision axiom
[eq-expl] #819 root
[new-match] 652724673 #28 #27 #819 ; #7495
[mk-app] #15244 = #7495 #7494
[mk-app] #15245 not #28
[mk-app] #15246 or #15245 #15244
[instance] 652724673 ; 1
[assign] (not #15244) justification -1: 2011 -2012
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15244
[conflict] #15244
[pop] 1 3
[assign] #15244 axiom
[assign] #7495 clause 2012 -2645
[assign] #7506 bin 2012
[decide-and-or] #7515 #7514
[push] 2
[assign] (not #7508) decision axiom
[eq-expl] #1171 root
[new-match] 1358549676 #28 #27 #1171 ; #7508
[mk-app] #15245 = #7508 #7507
[mk-app] #15246 not #28
[mk-app] #15247 or #15246 #15245
[instance] 1358549676 ; 1
[assign] (not #15245) justification -1: 2016 -2017
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15245
[conflict] #15245
[pop] 1 3
[assign] #15245 axiom
[assign] #7508 clause 2017 -2646
[assign] #7517 bin 2017
[decide-and-or] #7526 #7525
[push] 2
[assign] (not #7519) decision axiom
[eq-expl] #1172 root
[new-match] 1345066387 #28 #27 #1172 ; #7519
[mk-app] #15246 = #7519 #7518
[mk-app] #15247 not #28
[mk-app] #15248 or #15247 #15246
[instance] 1345066387 ; 1
[assign] (not #15246) justification -1: 2019 -2020
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15246
[conflict] #15246
[pop] 1 3
[assign] #15246 axiom
[assign] #7519 clause 2020 -2647
[assign] #7523 bin 2020
[decide-and-or] #7542 #7541
[push] 2
[assign] (not #7528) decision axiom
[eq-expl] #1174 root
[new-match] 2392516404 #28 #27 #1174 ; #7528
[mk-app] #15247 = #7528 #7527
[mk-app] #15248 not #28
[mk-app] #15249 or #15248 #15247
[instance] 2392516404 ; 1
[assign] (not #15247) justification -1: 2022 -2023
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15247
[conflict] #15247
[pop] 1 3
[assign] #15247 axiom
[assign] #7528 clause 2023 -2648
[assign] #7539 bin 2023
[decide-and-or] #7551 #7550
[push] 2
[assign] (not #7544) decision axiom
[eq-expl] #1173 root
[new-match] 651159554 #28 #27 #1173 ; #7544
[mk-app] #15248 = #7544 #7543
[mk-app] #15249 not #28
[mk-app] #15250 or #15249 #15248
[instance] 651159554 ; 1
[assign] (not #15248) justification -1: 2025 -2026
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15248
[conflict] #15248
[pop] 1 3
[assign] #15248 axiom
[assign] #7544 clause 2026 -2649
[assign] #7548 bin 2026
[decide-and-or] #13448 #7590
[push] 2
[assign] (not #7554) decision axiom
[eq-expl] #1175 root
[new-match] 1286887694 #28 #27 #1175 ; #7554
[mk-app] #15249 = #7554 #1480
[mk-app] #15250 not #28
[mk-app] #15251 or #15250 #15249
[instance] 1286887694 ; 1
[assign] (not #15249) justification -1: 751 -2030
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15249
[conflict] #15249
[pop] 1 3
[assign] #15249 axiom
[assign] #7554 clause 2030 -2650
[assign] #13447 bin 2030
[decide-and-or] #7599 #7598
[push] 2
[assign] (not #7594) decision axiom
[eq-expl] #824 root
[new-match] 58662808 #28 #27 #824 ; #7594
[mk-app] #15250 = #7594 #7593
[mk-app] #15251 not #28
[mk-app] #15252 or #15251 #15250
[instance] 58662808 ; 1
[assign] (not #15250) justification -1: 2033 -2034
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15250
[conflict] #15250
[pop] 1 3
[assign] #15250 axiom
[assign] #7594 clause 2034 -2651
[assign] #7596 bin 2034
[new-match] 2251781918 #6271 #6270 #1875 #120 #1875 #120 ; #7595
[decide-and-or] #7608 #7607
[push] 2
[assign] (not #7601) decision axiom
[eq-expl] #825 root
[new-match] 1390268039 #28 #27 #825 ; #7601
[mk-app] #15251 = #7601 #7600
[mk-app] #15252 not #28
[mk-app] #15253 or #15252 #15251
[instance] 1390268039 ; 1
[assign] (not #15251) justification -1: 2036 -2037
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15251
[conflict] #15251
[pop] 1 3
[assign] #15251 axiom
[assign] #7601 clause 2037 -2652
[assign] #7605 bin 2037
[decide-and-or] #7617 #7616
[push] 2
[assign] (not #7612) decision axiom
[eq-expl] #826 root
[new-match] 970975269 #28 #27 #826 ; #7612
[mk-app] #15252 = #7612 #7611
[mk-app] #15253 not #28
[mk-app] #15254 or #15253 #15252
[instance] 970975269 ; 1
[assign] (not #15252) justification -1: 2041 -2042
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15252
[conflict] #15252
[pop] 1 3
[assign] #15252 axiom
[assign] #7612 clause 2042 -2653
[assign] #7614 bin 2042
[new-match] 2751389657 #6302 #6301 #1875 #120 #1875 #120 ; #7613
[decide-and-or] #7626 #7625
[push] 2
[assign] (not #7619) decision axiom
[eq-expl] #827 root
[new-match] 410799460 #28 #27 #827 ; #7619
[mk-app] #15253 = #7619 #7618
[mk-app] #15254 not #28
[mk-app] #15255 or #15254 #15253
[instance] 410799460 ; 1
[assign] (not #15253) justification -1: 2044 -2045
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15253
[conflict] #15253
[pop] 1 3
[assign] #15253 axiom
[assign] #7619 clause 2045 -2654
[assign] #7630 bin 2045
[decide-and-or] #7639 #7638
[push] 2
[assign] (not #7632) decision axiom
[eq-expl] #1176 root
[new-match] 2325507270 #28 #27 #1176 ; #7632
[mk-app] #15254 = #7632 #7631
[mk-app] #15255 not #28
[mk-app] #15256 or #15255 #15254
[instance] 2325507270 ; 1
[assign] (not #15254) justification -1: 2049 -2050
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15254
[conflict] #15254
[pop] 1 3
[assign] #15254 axiom
[assign] #7632 clause 2050 -2655
[assign] #7641 bin 2050
[decide-and-or] #7650 #7649
[push] 2
[assign] (not #7643) decision axiom
[eq-expl] #1177 root
[new-match] 3492695138 #28 #27 #1177 ; #7643
[mk-app] #15255 = #7643 #7642
[mk-app] #15256 not #28
[mk-app] #15257 or #15256 #15255
[instance] 3492695138 ; 1
[assign] (not #15255) justification -1: 2052 -2053
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15255
[conflict] #15255
[pop] 1 3
[assign] #15255 axiom
[assign] #7643 clause 2053 -2656
[assign] #7647 bin 2053
[decide-and-or] #7666 #7665
[push] 2
[assign] (not #7652) decision axiom
[eq-expl] #1179 root
[new-match] 68134211 #28 #27 #1179 ; #7652
[mk-app] #15256 = #7652 #7651
[mk-app] #15257 not #28
[mk-app] #15258 or #15257 #15256
[instance] 68134211 ; 1
[assign] (not #15256) justification -1: 2055 -2056
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15256
[conflict] #15256
[pop] 1 3
[assign] #15256 axiom
[assign] #7652 clause 2056 -2657
[assign] #7663 bin 2056
[decide-and-or] #7675 #7674
[push] 2
[assign] (not #7668) decision axiom
[eq-expl] #1178 root
[new-match] 4031696566 #28 #27 #1178 ; #7668
[mk-app] #15257 = #7668 #7667
[mk-app] #15258 not #28
[mk-app] #15259 or #15258 #15257
[instance] 4031696566 ; 1
[assign] (not #15257) justification -1: 2058 -2059
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15257
[conflict] #15257
[pop] 1 3
[assign] #15257 axiom
[assign] #7668 clause 2059 -2658
[assign] #7672 bin 2059
[decide-and-or] #13455 #7714
[push] 2
[assign] (not #7678) decision axiom
[eq-expl] #1180 root
[new-match] 1355466098 #28 #27 #1180 ; #7678
[mk-app] #15258 = #7678 #1481
[mk-app] #15259 not #28
[mk-app] #15260 or #15259 #15258
[instance] 1355466098 ; 1
[assign] (not #15258) justification -1: 752 -2063
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15258
[conflict] #15258
[pop] 1 3
[assign] #15258 axiom
[assign] #7678 clause 2063 -2659
[assign] #13454 bin 2063
[decide-and-or] #7723 #7722
[push] 2
[assign] (not #7718) decision axiom
[eq-expl] #832 root
[new-match] 3795827726 #28 #27 #832 ; #7718
[mk-app] #15259 = #7718 #7717
[mk-app] #15260 not #28
[mk-app] #15261 or #15260 #15259
[instance] 3795827726 ; 1
[assign] (not #15259) justification -1: 2066 -2067
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15259
[conflict] #15259
[pop] 1 3
[assign] #15259 axiom
[assign] #7718 clause 2067 -2660
[assign] #7720 bin 2067
[new-match] 3799313972 #6271 #6270 #1896 #120 #1896 #120 ; #7719
[decide-and-or] #7732 #7731
[push] 2
[assign] (not #7725) decision axiom
[eq-expl] #833 root
[new-match] 2765001480 #28 #27 #833 ; #7725
[mk-app] #15260 = #7725 #7724
[mk-app] #15261 not #28
[mk-app] #15262 or #15261 #15260
[instance] 2765001480 ; 1
[assign] (not #15260) justification -1: 2069 -2070
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15260
[conflict] #15260
[pop] 1 3
[assign] #15260 axiom
[assign] #7725 clause 2070 -2661
[assign] #7729 bin 2070
[decide-and-or] #7741 #7740
[push] 2
[assign] (not #7736) decision axiom
[eq-expl] #834 root
[new-match] 2316158449 #28 #27 #834 ; #7736
[mk-app] #15261 = #7736 #7735
[mk-app] #15262 not #28
[mk-app] #15263 or #15262 #15261
[instance] 2316158449 ; 1
[assign] (not #15261) justification -1: 2074 -2075
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15261
[conflict] #15261
[pop] 2 3
[assign] #15229 axiom
[assign] #15230 axiom
[assign] #15231 axiom
[assign] #15232 axiom
[assign] #15233 axiom
[assign] #15234 axiom
[assign] #15235 axiom
[assign] #15236 axiom
[assign] #15237 axiom
[assign] #15238 axiom
[assign] #15239 axiom
[assign] #15240 axiom
[assign] #15241 axiom
[assign] #15242 axiom
[assign] #15243 axiom
[assign] #15244 axiom
[assign] #15245 axiom
[assign] #15246 axiom
[assign] #15247 axiom
[assign] #15248 axiom
[assign] #15249 axiom
[assign] #15250 axiom
[assign] #15251 axiom
[assign] #15252 axiom
[assign] #15253 axiom
[assign] #15254 axiom
[assign] #15255 axiom
[assign] #15256 axiom
[assign] #15257 axiom
[assign] #15258 axiom
[assign] #15259 axiom
[assign] #15260 axiom
[assign] #15261 axiom
[assign] #7280 clause 1957 -2627
[assign] #7296 clause 1960 -2628
[assign] #7306 clause 1964 -2629
[assign] #7346 clause 1968 -2630
[assign] #7353 clause 1971 -2631
[assign] #7364 clause 1976 -2632
[assign] #7371 clause 1979 -2633
[assign] #7384 clause 1984 -2634
[assign] #7395 clause 1987 -2635
[assign] #7404 clause 1990 -2636
[assign] #7420 clause 1993 -2637
[assign] #7430 clause 1997 -2638
[assign] #7470 clause 2001 -2639
[assign] #7477 clause 2004 -2640
[assign] #7488 clause 2009 -2641
[assign] #7495 clause 2012 -2642
[assign] #7508 clause 2017 -2643
[assign] #7519 clause 2020 -2644
[assign] #7528 clause 2023 -2645
[assign] #7544 clause 2026 -2646
[assign] #7554 clause 2030 -2647
[assign] #7594 clause 2034 -2648
[assign] #7601 clause 2037 -2649
[assign] #7612 clause 2042 -2650
[assign] #7619 clause 2045 -2651
[assign] #7632 clause 2050 -2652
[assign] #7643 clause 2053 -2653
[assign] #7652 clause 2056 -2654
[assign] #7668 clause 2059 -2655
[assign] #7678 clause 2063 -2656
[assign] #7718 clause 2067 -2657
[assign] #7725 clause 2070 -2658
[assign] #7736 clause 2075 -2659
[assign] #7291 bin 1957
[assign] #7300 bin 1960
[assign] #13433 bin 1964
[assign] #7348 bin 1968
[assign] #7357 bin 1971
[assign] #7366 bin 1976
[assign] #7382 bin 1979
[assign] #7393 bin 1984
[assign] #7399 bin 1987
[assign] #7415 bin 1990
[assign] #7424 bin 1993
[assign] #13440 bin 1997
[assign] #7472 bin 2001
[assign] #7481 bin 2004
[assign] #7490 bin 2009
[assign] #7506 bin 2012
[assign] #7517 bin 2017
[assign] #7523 bin 2020
[assign] #7539 bin 2023
[assign] #7548 bin 2026
[assign] #13447 bin 2030
[assign] #7596 bin 2034
[assign] #7605 bin 2037
[assign] #7614 bin 2042
[assign] #7630 bin 2045
[assign] #7641 bin 2050
[assign] #7647 bin 2053
[assign] #7663 bin 2056
[assign] #7672 bin 2059
[assign] #13454 bin 2063
[assign] #7720 bin 2067
[assign] #7729 bin 2070
[assign] #7738 bin 2075
[new-match] 249661825 #6271 #6270 #1833 #120 #1833 #120 ; #7347
[new-match] 1498700065 #6271 #6270 #1854 #120 #1854 #120 ; #7471
[new-match] 2251781918 #6271 #6270 #1875 #120 #1875 #120 ; #7595
[new-match] 3799313972 #6271 #6270 #1896 #120 #1896 #120 ; #7719
[new-match] 2871989605 #6302 #6301 #1833 #120 #1833 #120 ; #7365
[new-match] 2642540511 #6302 #6301 #1854 #120 #1854 #120 ; #7489
[new-match] 2751389657 #6302 #6301 #1875 #120 #1875 #120 ; #7613
[new-match] 3629150569 #6302 #6301 #1896 #120 #1896 #120 ; #7737
[decide-and-or] #274 #271
[push] 1
[assign] #271 decision axiom
[mk-app] #15169 = #284 #7151
[mk-app] #15161 <= #7151 #284
[mk-app] #15162 >= #7151 #284
[assign] #15169 justification -1: 42 38
[attach-enode] #15169 0
[assign] #15161 justification -1: 2660
[assign] #15162 justification -1: 2660
[decide-and-or] #7750 #7749
[push] 2
[assign] (not #7743) decision axiom
[eq-expl] #835 root
[new-match] 1131186996 #28 #27 #835 ; #7743
[mk-app] #15262 = #7743 #7742
[mk-app] #15263 not #28
[mk-app] #15264 or #15263 #15262
[instance] 1131186996 ; 1
[assign] (not #15262) justification -1: 2077 -2078
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15262
[conflict] #15262
[pop] 1 3
[assign] #15262 axiom
[assign] #7743 clause 2078 -2663
[assign] #7754 bin 2078
[decide-and-or] #7763 #7762
[push] 2
[assign] (not #7756) decision axiom
[eq-expl] #1181 root
[new-match] 1854959807 #28 #27 #1181 ; #7756
[mk-app] #15263 = #7756 #7755
[mk-app] #15264 not #28
[mk-app] #15265 or #15264 #15263
[instance] 1854959807 ; 1
[assign] (not #15263) justification -1: 2082 -2083
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15263
[conflict] #15263
[pop] 1 3
[assign] #15263 axiom
[assign] #7756 clause 2083 -2664
[assign] #7765 bin 2083
[decide-and-or] #7774 #7773
[push] 2
[assign] (not #7767) decision axiom
[eq-expl] #1182 root
[new-match] 3071818813 #28 #27 #1182 ; #7767
[mk-app] #15264 = #7767 #7766
[mk-app] #15265 not #28
[mk-app] #15266 or #15265 #15264
[instance] 3071818813 ; 1
[assign] (not #15264) justification -1: 2085 -2086
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15264
[conflict] #15264
[pop] 1 3
[assign] #15264 axiom
[assign] #7767 clause 2086 -2665
[assign] #7771 bin 2086
[decide-and-or] #7790 #7789
[push] 2
[assign] (not #7776) decision axiom
[eq-expl] #1184 root
[new-match] 1751777928 #28 #27 #1184 ; #7776
[mk-app] #15265 = #7776 #7775
[mk-app] #15266 not #28
[mk-app] #15267 or #15266 #15265
[instance] 1751777928 ; 1
[assign] (not #15265) justification -1: 2088 -2089
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15265
[conflict] #15265
[pop] 1 3
[assign] #15265 axiom
[assign] #7776 clause 2089 -2666
[assign] #7787 bin 2089
[decide-and-or] #7799 #7798
[push] 2
[assign] (not #7792) decision axiom
[eq-expl] #1183 root
[new-match] 3947589056 #28 #27 #1183 ; #7792
[mk-app] #15266 = #7792 #7791
[mk-app] #15267 not #28
[mk-app] #15268 or #15267 #15266
[instance] 3947589056 ; 1
[assign] (not #15266) justification -1: 2091 -2092
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15266
[conflict] #15266
[pop] 1 3
[assign] #15266 axiom
[assign] #7792 clause 2092 -2667
[assign] #7796 bin 2092
[decide-and-or] #13462 #7838
[push] 2
[assign] (not #7802) decision axiom
[eq-expl] #1185 root
[new-match] 1191278173 #28 #27 #1185 ; #7802
[mk-app] #15267 = #7802 #1482
[mk-app] #15268 not #28
[mk-app] #15269 or #15268 #15267
[instance] 1191278173 ; 1
[assign] (not #15267) justification -1: 753 -2096
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15267
[conflict] #15267
[pop] 1 3
[assign] #15267 axiom
[assign] #7802 clause 2096 -2668
[assign] #13461 bin 2096
[decide-and-or] #7847 #7846
[push] 2
[assign] (not #7842) decision axiom
[eq-expl] #840 root
[new-match] 2880663656 #28 #27 #840 ; #7842
[mk-app] #15268 = #7842 #7841
[mk-app] #15269 not #28
[mk-app] #15270 or #15269 #15268
[instance] 2880663656 ; 1
[assign] (not #15268) justification -1: 2099 -2100
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15268
[conflict] #15268
[pop] 1 3
[assign] #15268 axiom
[assign] #7842 clause 2100 -2669
[assign] #7844 bin 2100
[new-match] 1627953735 #6271 #6270 #211 #120 #211 #120 ; #7843
[decide-and-or] #7856 #7855
[push] 2
[assign] (not #7849) decision axiom
[eq-expl] #841 root
[new-match] 219773746 #28 #27 #841 ; #7849
[mk-app] #15269 = #7849 #7848
[mk-app] #15270 not #28
[mk-app] #15271 or #15270 #15269
[instance] 219773746 ; 1
[assign] (not #15269) justification -1: 2102 -2103
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15269
[conflict] #15269
[pop] 1 3
[assign] #15269 axiom
[assign] #7849 clause 2103 -2670
[assign] #7853 bin 2103
[decide-and-or] #7865 #7864
[push] 2
[assign] (not #7860) decision axiom
[eq-expl] #842 root
[new-match] 115600656 #28 #27 #842 ; #7860
[mk-app] #15270 = #7860 #7859
[mk-app] #15271 not #28
[mk-app] #15272 or #15271 #15270
[instance] 115600656 ; 1
[assign] (not #15270) justification -1: 2107 -2108
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15270
[conflict] #15270
[pop] 1 3
[assign] #15270 axiom
[assign] #7860 clause 2108 -2671
[assign] #7862 bin 2108
[new-match] 87727928 #6302 #6301 #211 #120 #211 #120 ; #7861
[decide-and-or] #7874 #7873
[push] 2
[assign] (not #7867) decision axiom
[eq-expl] #843 root
[new-match] 2291314874 #28 #27 #843 ; #7867
[mk-app] #15271 = #7867 #7866
[mk-app] #15272 not #28
[mk-app] #15273 or #15272 #15271
[instance] 2291314874 ; 1
[assign] (not #15271) justification -1: 2110 -2111
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15271
[conflict] #15271
[pop] 1 3
[assign] #15271 axiom
[assign] #7867 clause 2111 -2672
[assign] #7878 bin 2111
[decide-and-or] #7887 #7886
[push] 2
[assign] (not #7880) decision axiom
[eq-expl] #1186 root
[new-match] 2507905701 #28 #27 #1186 ; #7880
[mk-app] #15272 = #7880 #7879
[mk-app] #15273 not #28
[mk-app] #15274 or #15273 #15272
[instance] 2507905701 ; 1
[assign] (not #15272) justification -1: 2115 -2116
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15272
[conflict] #15272
[pop] 1 3
[assign] #15272 axiom
[assign] #7880 clause 2116 -2673
[assign] #7889 bin 2116
[decide-and-or] #7898 #7897
[push] 2
[assign] (not #7891) decision axiom
[eq-expl] #1187 root
[new-match] 802006847 #28 #27 #1187 ; #7891
[mk-app] #15273 = #7891 #7890
[mk-app] #15274 not #28
[mk-app] #15275 or #15274 #15273
[instance] 802006847 ; 1
[assign] (not #15273) justification -1: 2118 -2119
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15273
[conflict] #15273
[pop] 1 3
[assign] #15273 axiom
[assign] #7891 clause 2119 -2674
[assign] #7895 bin 2119
[decide-and-or] #7914 #7916
[push] 2
[assign] (not #7900) decision axiom
[eq-expl] #1189 root
[new-match] 1295603352 #28 #27 #1189 ; #7900
[mk-app] #15274 = #7900 #7899
[mk-app] #15275 not #28
[mk-app] #15276 or #15275 #15274
[instance] 1295603352 ; 1
[assign] (not #15274) justification -1: 2121 -2122
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15274
[conflict] #15274
[pop] 1 3
[assign] #15274 axiom
[assign] #7900 clause 2122 -2675
[assign] #7923 bin 2122
[decide-and-or] #7931 #7930
[push] 2
[assign] (not #7924) decision axiom
[eq-expl] #1188 root
[new-match] 3145595303 #28 #27 #1188 ; #7924
[mk-app] #15275 = #7924 #7915
[mk-app] #15276 not #28
[mk-app] #15277 or #15276 #15275
[instance] 3145595303 ; 1
[assign] (not #15275) justification -1: 2124 -2125
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15275
[conflict] #15275
[pop] 1 3
[assign] #15275 axiom
[assign] #7924 clause 2125 -2676
[assign] #7928 bin 2125
[decide-and-or] #13469 #7970
[push] 2
[assign] (not #7934) decision axiom
[eq-expl] #1190 root
[new-match] 1318668494 #28 #27 #1190 ; #7934
[mk-app] #15276 = #7934 #1483
[mk-app] #15277 not #28
[mk-app] #15278 or #15277 #15276
[instance] 1318668494 ; 1
[assign] (not #15276) justification -1: 754 -2129
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15276
[conflict] #15276
[pop] 1 3
[assign] #15276 axiom
[assign] #7934 clause 2129 -2677
[assign] #13468 bin 2129
[decide-and-or] #8022 #8021
[push] 2
[assign] (not #8013) decision axiom
[eq-expl] #1258 root
[new-match] 3400701526 #28 #27 #1258 ; #8013
[mk-app] #15277 = #8013 #8012
[mk-app] #15278 not #28
[mk-app] #15279 or #15278 #15277
[instance] 3400701526 ; 1
[assign] (not #15277) justification -1: 2136 -2137
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15277
[conflict] #15277
[pop] 1 3
[assign] #15277 axiom
[assign] #8013 clause 2137 -2678
[assign] #8019 bin 2137
[decide-and-or] #8047 #8046
[push] 2
[assign] (not #8037) decision axiom
[eq-expl] #1116 root
[new-match] 580732690 #28 #27 #1116 ; #8037
[mk-app] #15278 = #8037 #8036
[mk-app] #15279 not #28
[mk-app] #15280 or #15279 #15278
[instance] 580732690 ; 1
[assign] (not #15278) justification -1: 2141 -2142
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15278
[conflict] #15278
[pop] 1 3
[assign] #15278 axiom
[assign] #8037 clause 2142 -2679
[assign] #8045 bin 2142
[decide-and-or] #13540 #8291
[push] 2
[assign] (not #8277) decision axiom
[eq-expl] #870 root
[new-match] 320926145 #28 #27 #870 ; #8277
[mk-app] #15279 = #8277 #8276
[mk-app] #15280 not #28
[mk-app] #15281 or #15280 #15279
[instance] 320926145 ; 1
[assign] (not #15279) justification -1: 2154 -2155
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15279
[conflict] #15279
[pop] 1 3
[assign] #15279 axiom
[assign] #8277 clause 2155 -2680
[assign] #13543 bin 2155
[decide-and-or] #13545 #8309
[push] 2
[assign] (not #8294) decision axiom
[eq-expl] #871 root
[new-match] 1860711882 #28 #27 #871 ; #8294
[mk-app] #15280 = #8294 #8293
[mk-app] #15281 not #28
[mk-app] #15282 or #15281 #15280
[instance] 1860711882 ; 1
[assign] (not #15280) justification -1: 2157 -2158
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15280
[conflict] #15280
[pop] 1 3
[assign] #15280 axiom
[assign] #8294 clause 2158 -2681
[assign] #13548 bin 2158
[decide-and-or] #13546 #8354
[push] 2
[assign] (not #8335) decision axiom
[eq-expl] #1259 root
[new-match] 2521625288 #28 #27 #1259 ; #8335
[mk-app] #15281 = #8335 #8325
[mk-app] #15282 not #28
[mk-app] #15283 or #15282 #15281
[instance] 2521625288 ; 1
[assign] (not #15281) justification -1: 2162 -2164
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15281
[conflict] #15281
[pop] 1 3
[assign] #15281 axiom
[assign] #8335 clause 2164 -2682
[assign] #13555 bin 2164
[decide-and-or] #13564 #8392
[push] 2
[assign] (not #8361) decision axiom
[eq-expl] #869 root
[new-match] 3031929722 #28 #27 #869 ; #8361
[mk-app] #15282 = #8361 #1467
[mk-app] #15283 not #28
[mk-app] #15284 or #15283 #15282
[instance] 3031929722 ; 1
[assign] (not #15282) justification -1: 741 -2167
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15282
[conflict] #15282
[pop] 1 3
[assign] #15282 axiom
[assign] #8361 clause 2167 -2683
[assign] #13557 bin 2167
[decide-and-or] #13570 #8425
[push] 2
[assign] (not #8410) decision axiom
[eq-expl] #1199 root
[new-match] 2271693452 #28 #27 #1199 ; #8410
[mk-app] #15283 = #8410 #1489
[mk-app] #15284 not #28
[mk-app] #15285 or #15284 #15283
[instance] 2271693452 ; 1
[assign] (not #15283) justification -1: 756 -2171
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15283
[conflict] #15283
[pop] 1 3
[assign] #15283 axiom
[assign] #8410 clause 2171 -2684
[assign] #13566 bin 2171
[decide-and-or] #13575 #8461
[push] 2
[assign] (not #8446) decision axiom
[eq-expl] #1198 root
[new-match] 4163254076 #28 #27 #1198 ; #8446
[mk-app] #15284 = #8446 #8445
[mk-app] #15285 not #28
[mk-app] #15286 or #15285 #15284
[instance] 4163254076 ; 1
[assign] (not #15284) justification -1: 2176 -2177
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15284
[conflict] #15284
[pop] 1 3
[assign] #15284 axiom
[assign] #8446 clause 2177 -2685
[assign] #13580 bin 2177
[decide-and-or] #13581 #8486
[push] 2
[assign] (not #8469) decision axiom
[eq-expl] #1200 root
[new-match] 4113549410 #28 #27 #1200 ; #8469
[mk-app] #15285 = #8469 #1490
[mk-app] #15286 not #28
[mk-app] #15287 or #15286 #15285
[instance] 4113549410 ; 1
[assign] (not #15285) justification -1: 757 -2180
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15285
[conflict] #15285
[pop] 1 3
[assign] #15285 axiom
[assign] #8469 clause 2180 -2686
[assign] #13585 bin 2180
[decide-and-or] #13584 #8507
[push] 2
[assign] (not #8497) decision axiom
[eq-expl] #1206 root
[new-match] 3221692570 #28 #27 #1206 ; #8497
[mk-app] #15286 = #8497 #1491
[mk-app] #15287 not #28
[mk-app] #15288 or #15287 #15286
[instance] 3221692570 ; 1
[assign] (not #15286) justification -1: 758 -2182
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15286
[conflict] #15286
[pop] 1 3
[assign] #15286 axiom
[assign] #8497 clause 2182 -2687
[assign] #13588 bin 2182
[decide-and-or] #8529 #8528
[push] 2
[assign] (not #8514) decision axiom
[eq-expl] #1207 root
[new-match] 2638331875 #28 #27 #1207 ; #8514
[mk-app] #15287 = #8514 #1492
[mk-app] #15288 not #28
[mk-app] #15289 or #15288 #15287
[instance] 2638331875 ; 1
[assign] (not #15287) justification -1: 759 -2184
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15287
[conflict] #15287
[pop] 1 3
[assign] #15287 axiom
[assign] #8514 clause 2184 -2688
[assign] #8525 bin 2184
[decide-and-or] #13590 #8565
[push] 2
[assign] (not #8547) decision axiom
[eq-expl] #1218 root
[new-match] 3279147806 #28 #27 #1218 ; #8547
[mk-app] #15288 = #8547 #1498
[mk-app] #15289 not #28
[mk-app] #15290 or #15289 #15288
[instance] 3279147806 ; 1
[assign] (not #15288) justification -1: 761 -2189
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15288
[conflict] #15288
[pop] 1 3
[assign] #15288 axiom
[assign] #8547 clause 2189 -2689
[assign] #13597 bin 2189
[decide-and-or] #13778 #9166
[push] 2
[assign] (not #8962) decision axiom
[eq-expl] #1291 root
[new-match] 3403060564 #28 #27 #1291 ; #8962
[mk-app] #15289 = #8962 #8961
[mk-app] #15290 not #28
[mk-app] #15291 or #15290 #15289
[instance] 3403060564 ; 1
[assign] (not #15289) justification -1: 2242 -2243
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15289
[conflict] #15289
[pop] 1 3
[assign] #15289 axiom
[assign] #8962 clause 2243 -2690
[assign] #13777 bin 2243
[decide-and-or] #9178 #9177
[push] 2
[assign] (not #9169) decision axiom
[eq-expl] #1292 root
[new-match] 3873816442 #28 #27 #1292 ; #9169
[mk-app] #15290 = #9169 #9168
[mk-app] #15291 not #28
[mk-app] #15292 or #15291 #15290
[instance] 3873816442 ; 1
[assign] (not #15290) justification -1: 2245 -2246
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15290
[conflict] #15290
[pop] 1 3
[assign] #15290 axiom
[assign] #9169 clause 2246 -2691
[assign] #9175 bin 2246
[decide-and-or] #13780 #9197
[push] 2
[assign] (not #9179) decision axiom
[eq-expl] #1302 root
[new-match] 1249723640 #28 #27 #1302 ; #9179
[mk-app] #15291 = #9179 #1523
[mk-app] #15292 not #28
[mk-app] #15293 or #15292 #15291
[instance] 1249723640 ; 1
[assign] (not #15291) justification -1: 779 -2248
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15291
[conflict] #15291
[pop] 1 3
[assign] #15291 axiom
[assign] #9179 clause 2248 -2692
[assign] #13783 bin 2248
[decide-and-or] #13781 #9241
[push] 2
[assign] (not #9202) decision axiom
[eq-expl] #1303 root
[new-match] 2008852836 #28 #27 #1303 ; #9202
[mk-app] #15292 = #9202 #1524
[mk-app] #15293 not #28
[mk-app] #15294 or #15293 #15292
[instance] 2008852836 ; 1
[assign] (not #15292) justification -1: 780 -2250
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15292
[conflict] #15292
[pop] 1 3
[assign] #15292 axiom
[assign] #9202 clause 2250 -2693
[assign] #13790 bin 2250
[decide-and-or] #9261 #9260
[push] 2
[assign] (not #9256) decision axiom
[eq-expl] #1304 root
[new-match] 111401564 #28 #27 #1304 ; #9256
[mk-app] #15293 = #9256 #1525
[mk-app] #15294 not #28
[mk-app] #15295 or #15294 #15293
[instance] 111401564 ; 1
[assign] (not #15293) justification -1: 781 -2253
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15293
[conflict] #15293
[pop] 1 3
[assign] #15293 axiom
[assign] #9256 clause 2253 -2694
[assign] #9258 bin 2253
[decide-and-or] #13796 #9279
[push] 2
[assign] (not #9267) decision axiom
[eq-expl] #1123 root
[new-match] 1065041317 #28 #27 #1123 ; #9267
[mk-app] #15294 = #9267 #9266
[mk-app] #15295 not #28
[mk-app] #15296 or #15295 #15294
[instance] 1065041317 ; 1
[assign] (not #15294) justification -1: 2256 -2257
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15294
[conflict] #15294
[pop] 2 3
[assign] #15262 axiom
[assign] #15263 axiom
[assign] #15264 axiom
[assign] #15265 axiom
[assign] #15266 axiom
[assign] #15267 axiom
[assign] #15268 axiom
[assign] #15269 axiom
[assign] #15270 axiom
[assign] #15271 axiom
[assign] #15272 axiom
[assign] #15273 axiom
[assign] #15274 axiom
[assign] #15275 axiom
[assign] #15276 axiom
[assign] #15277 axiom
[assign] #15278 axiom
[assign] #15279 axiom
[assign] #15280 axiom
[assign] #15281 axiom
[assign] #15282 axiom
[assign] #15283 axiom
[assign] #15284 axiom
[assign] #15285 axiom
[assign] #15286 axiom
[assign] #15287 axiom
[assign] #15288 axiom
[assign] #15289 axiom
[assign] #15290 axiom
[assign] #15291 axiom
[assign] #15292 axiom
[assign] #15293 axiom
[assign] #15294 axiom
[assign] #7743 clause 2078 -2660
[assign] #7756 clause 2083 -2661
[assign] #7767 clause 2086 -2662
[assign] #7776 clause 2089 -2663
[assign] #7792 clause 2092 -2664
[assign] #7802 clause 2096 -2665
[assign] #7842 clause 2100 -2666
[assign] #7849 clause 2103 -2667
[assign] #7860 clause 2108 -2668
[assign] #7867 clause 2111 -2669
[assign] #7880 clause 2116 -2670
[assign] #7891 clause 2119 -2671
[assign] #7900 clause 2122 -2672
[assign] #7924 clause 2125 -2673
[assign] #7934 clause 2129 -2674
[assign] #8013 clause 2137 -2675
[assign] #8037 clause 2142 -2676
[assign] #8277 clause 2155 -2677
[assign] #8294 clause 2158 -2678
[assign] #8335 clause 2164 -2679
[assign] #8361 clause 2167 -2680
[assign] #8410 clause 2171 -2681
[assign] #8446 clause 2177 -2682
[assign] #8469 clause 2180 -2683
[assign] #8497 clause 2182 -2684
[assign] #8514 clause 2184 -2685
[assign] #8547 clause 2189 -2686
[assign] #8962 clause 2243 -2687
[assign] #9169 clause 2246 -2688
[assign] #9179 clause 2248 -2689
[assign] #9202 clause 2250 -2690
[assign] #9256 clause 2253 -2691
[assign] #9267 clause 2257 -2692
[assign] #7754 bin 2078
[assign] #7765 bin 2083
[assign] #7771 bin 2086
[assign] #7787 bin 2089
[assign] #7796 bin 2092
[assign] #13461 bin 2096
[assign] #7844 bin 2100
[assign] #7853 bin 2103
[assign] #7862 bin 2108
[assign] #7878 bin 2111
[assign] #7889 bin 2116
[assign] #7895 bin 2119
[assign] #7923 bin 2122
[assign] #7928 bin 2125
[assign] #13468 bin 2129
[assign] #8019 bin 2137
[assign] #8045 bin 2142
[assign] #13543 bin 2155
[assign] #13548 bin 2158
[assign] #13555 bin 2164
[assign] #13557 bin 2167
[assign] #13566 bin 2171
[assign] #13580 bin 2177
[assign] #13585 bin 2180
[assign] #13588 bin 2182
[assign] #8525 bin 2184
[assign] #13597 bin 2189
[assign] #13777 bin 2243
[assign] #9175 bin 2246
[assign] #13783 bin 2248
[assign] #13790 bin 2250
[assign] #9258 bin 2253
[assign] #13799 bin 2257
[new-match] 1627953735 #6271 #6270 #211 #120 #211 #120 ; #7843
[new-match] 87727928 #6302 #6301 #211 #120 #211 #120 ; #7861
[decide-and-or] #274 #271
[push] 1
[assign] #271 decision axiom
[mk-app] #15169 = #284 #7151
[mk-app] #15161 <= #7151 #284
[mk-app] #15162 >= #7151 #284
[assign] #15169 justification -1: 42 38
[attach-enode] #15169 0
[assign] #15161 justification -1: 2693
[assign] #15162 justification -1: 2693
[decide-and-or] #9299 #9298
[push] 2
[assign] (not #9292) decision axiom
[eq-expl] #1117 root
[new-match] 1932173999 #28 #27 #1117 ; #9292
[mk-app] #15295 = #9292 #9291
[mk-app] #15296 not #28
[mk-app] #15297 or #15296 #15295
[instance] 1932173999 ; 1
[assign] (not #15295) justification -1: 2260 -2261
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15295
[conflict] #15295
[pop] 1 3
[assign] #15295 axiom
[assign] #9292 clause 2261 -2696
[assign] #9296 bin 2261
[decide-and-or] #13797 #9332
[push] 2
[assign] (not #9314) decision axiom
[eq-expl] #1124 root
[new-match] 4281253212 #28 #27 #1124 ; #9314
[mk-app] #15296 = #9314 #9305
[mk-app] #15297 not #28
[mk-app] #15298 or #15297 #15296
[instance] 4281253212 ; 1
[assign] (not #15296) justification -1: 2264 -2266
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15296
[conflict] #15296
[pop] 1 3
[assign] #15296 axiom
[assign] #9314 clause 2266 -2697
[assign] #13802 bin 2266
[decide-and-or] #13800 #9355
[push] 2
[assign] (not #9342) decision axiom
[eq-expl] #1125 root
[new-match] 1495065429 #28 #27 #1125 ; #9342
[mk-app] #15297 = #9342 #9341
[mk-app] #15298 not #28
[mk-app] #15299 or #15298 #15297
[instance] 1495065429 ; 1
[assign] (not #15297) justification -1: 2268 -2269
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15297
[conflict] #15297
[pop] 1 3
[assign] #15297 axiom
[assign] #9342 clause 2269 -2698
[assign] #13805 bin 2269
[decide-and-or] #13806 #9390
[push] 2
[assign] (not #9358) decision axiom
[eq-expl] #1126 root
[new-match] 2383791469 #28 #27 #1126 ; #9358
[mk-app] #15298 = #9358 #9357
[mk-app] #15299 not #28
[mk-app] #15300 or #15299 #15298
[instance] 2383791469 ; 1
[assign] (not #15298) justification -1: 2271 -2272
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15298
[conflict] #15298
[pop] 1 3
[assign] #15298 axiom
[assign] #9358 clause 2272 -2699
[assign] #13814 bin 2272
[decide-and-or] #13822 #9449
[push] 2
[assign] (not #9439) decision axiom
[eq-expl] #1127 root
[new-match] 1091367589 #28 #27 #1127 ; #9439
[mk-app] #15299 = #9439 #9438
[mk-app] #15300 not #28
[mk-app] #15301 or #15300 #15299
[instance] 1091367589 ; 1
[assign] (not #15299) justification -1: 2280 -2281
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15299
[conflict] #15299
[pop] 1 3
[assign] #15299 axiom
[assign] #9439 clause 2281 -2700
[assign] #13833 bin 2281
[decide-and-or] #13823 #9480
[push] 2
[assign] (not #9458) decision axiom
[eq-expl] #1128 root
[new-match] 3292912225 #28 #27 #1128 ; #9458
[mk-app] #15300 = #9458 #9457
[mk-app] #15301 not #28
[mk-app] #15302 or #15301 #15300
[instance] 3292912225 ; 1
[assign] (not #15300) justification -1: 2284 -2285
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15300
[conflict] #15300
[pop] 1 3
[assign] #15300 axiom
[assign] #9458 clause 2285 -2701
[assign] #13836 bin 2285
[decide-and-or] #13834 #9494
[push] 2
[assign] (not #9483) decision axiom
[eq-expl] #1129 root
[new-match] 3136873516 #28 #27 #1129 ; #9483
[mk-app] #15301 = #9483 #9482
[mk-app] #15302 not #28
[mk-app] #15303 or #15302 #15301
[instance] 3136873516 ; 1
[assign] (not #15301) justification -1: 2287 -2288
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15301
[conflict] #15301
[pop] 1 3
[assign] #15301 axiom
[assign] #9483 clause 2288 -2702
[assign] #13839 bin 2288
[decide-and-or] #13837 #9529
[push] 2
[assign] (not #9497) decision axiom
[eq-expl] #1130 root
[new-match] 4127942779 #28 #27 #1130 ; #9497
[mk-app] #15302 = #9497 #9496
[mk-app] #15303 not #28
[mk-app] #15304 or #15303 #15302
[instance] 4127942779 ; 1
[assign] (not #15302) justification -1: 2290 -2291
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15302
[conflict] #15302
[pop] 1 3
[assign] #15302 axiom
[assign] #9497 clause 2291 -2703
[assign] #13847 bin 2291
[decide-and-or] #13929 #9792
[push] 2
[assign] (not #9770) decision axiom
[eq-expl] #1235 root
[new-match] 4079102862 #28 #27 #1235 ; #9770
[mk-app] #15303 = #9770 #9769
[mk-app] #15304 not #28
[mk-app] #15305 or #15304 #15303
[instance] 4079102862 ; 1
[assign] (not #15303) justification -1: 2311 -2312
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15303
[conflict] #15303
[pop] 1 3
[assign] #15303 axiom
[assign] #9770 clause 2312 -2704
[assign] #13927 bin 2312
[decide-and-or] #13937 #9817
[push] 2
[assign] (not #9795) decision axiom
[eq-expl] #1236 root
[new-match] 1271828417 #28 #27 #1236 ; #9795
[mk-app] #15304 = #9795 #9794
[mk-app] #15305 not #28
[mk-app] #15306 or #15305 #15304
[instance] 1271828417 ; 1
[assign] (not #15304) justification -1: 2314 -2315
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15304
[conflict] #15304
[pop] 1 3
[assign] #15304 axiom
[assign] #9795 clause 2315 -2705
[assign] #13935 bin 2315
[decide-and-or] #13996 #9949
[push] 2
[assign] (not #9919) decision axiom
[eq-expl] #1301 root
[new-match] 2067724683 #28 #27 #1301 ; #9919
[mk-app] #15305 = #9919 #9918
[mk-app] #15306 not #28
[mk-app] #15307 or #15306 #15305
[instance] 2067724683 ; 1
[assign] (not #15305) justification -1: 2324 -2325
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15305
[conflict] #15305
[pop] 1 3
[assign] #15305 axiom
[assign] #9919 clause 2325 -2706
[assign] #13995 bin 2325
[decide-and-or] #10453 #10452
[push] 2
[assign] (not #10437) decision axiom
[eq-expl] #1293 root
[new-match] 680590735 #28 #27 #1293 ; #10437
[mk-app] #15306 = #10437 #10415
[mk-app] #15307 not #28
[mk-app] #15308 or #15307 #15306
[instance] 680590735 ; 1
[assign] (not #15306) justification -1: 2347 -2350
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15306
[conflict] #15306
[pop] 1 3
[assign] #15306 axiom
[assign] #10437 clause 2350 -2707
[assign] #10450 bin 2350
[decide-and-or] #10490 #10489
[push] 2
[assign] (not #10478) decision axiom
[eq-expl] #1298 root
[new-match] 2943084242 #28 #27 #1298 ; #10478
[mk-app] #15307 = #10478 #10454
[mk-app] #15308 not #28
[mk-app] #15309 or #15308 #15307
[instance] 2943084242 ; 1
[assign] (not #15307) justification -1: 2352 -2355
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15307
[conflict] #15307
[pop] 1 3
[assign] #15307 axiom
[assign] #10478 clause 2355 -2708
[assign] #10487 bin 2355
[decide-and-or] #10505 #10504
[push] 2
[assign] (not #10498) decision axiom
[eq-expl] #879 root
[new-match] 192792533 #28 #27 #879 ; #10498
[mk-app] #15308 = #10498 #10497
[mk-app] #15309 not #28
[mk-app] #15310 or #15309 #15308
[instance] 192792533 ; 1
[assign] (not #15308) justification -1: 2358 -2359
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15308
[conflict] #15308
[pop] 1 3
[assign] #15308 axiom
[assign] #10498 clause 2359 -2709
[assign] #10502 bin 2359
[decide-and-or] #10515 #10514
[push] 2
[assign] (not #10507) decision axiom
[eq-expl] #878 root
[new-match] 391372089 #28 #27 #878 ; #10507
[mk-app] #15309 = #10507 #10506
[mk-app] #15310 not #28
[mk-app] #15311 or #15310 #15309
[instance] 391372089 ; 1
[assign] (not #15309) justification -1: 2361 -2362
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15309
[conflict] #15309
[pop] 1 3
[assign] #15309 axiom
[assign] #10507 clause 2362 -2710
[assign] #10512 bin 2362
[decide-and-or] #14216 #10572
[push] 2
[assign] (not #10522) decision axiom
[eq-expl] #880 root
[new-match] 2166959533 #28 #27 #880 ; #10522
[mk-app] #15310 = #10522 #10521
[mk-app] #15311 not #28
[mk-app] #15312 or #15311 #15310
[instance] 2166959533 ; 1
[assign] (not #15310) justification -1: 2365 -2366
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15310
[conflict] #15310
[pop] 1 3
[assign] #15310 axiom
[assign] #10522 clause 2366 -2711
[assign] #14215 bin 2366
[decide-and-or] #10692 #10691
[push] 2
[assign] (not #10684) decision axiom
[eq-expl] #881 root
[new-match] 1147251111 #28 #27 #881 ; #10684
[mk-app] #15311 = #10684 #10683
[mk-app] #15312 not #28
[mk-app] #15313 or #15312 #15311
[instance] 1147251111 ; 1
[assign] (not #15311) justification -1: 2371 -2372
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15311
[conflict] #15311
[pop] 1 3
[assign] #15311 axiom
[assign] #10684 clause 2372 -2712
[assign] #10690 bin 2372
[decide-and-or] #10706 #10705
[push] 2
[assign] (not #10694) decision axiom
[eq-expl] #1118 root
[new-match] 1630816013 #28 #27 #1118 ; #10694
[mk-app] #15312 = #10694 #10693
[mk-app] #15313 not #28
[mk-app] #15314 or #15313 #15312
[instance] 1630816013 ; 1
[assign] (not #15312) justification -1: 2374 -2375
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15312
[conflict] #15312
[pop] 1 3
[assign] #15312 axiom
[assign] #10694 clause 2375 -2713
[assign] #10704 bin 2375
[decide-and-or] #10796 #10795
[push] 2
[assign] (not #10784) decision axiom
[eq-expl] #1299 root
[new-match] 1088934613 #28 #27 #1299 ; #10784
[mk-app] #15313 = #10784 #10767
[mk-app] #15314 not #28
[mk-app] #15315 or #15314 #15313
[instance] 1088934613 ; 1
[assign] (not #15313) justification -1: 2382 -2385
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15313
[conflict] #15313
[pop] 1 3
[assign] #15313 axiom
[assign] #10784 clause 2385 -2714
[assign] #10793 bin 2385
[decide-and-or] #14295 #10844
[push] 2
[assign] (not #10821) decision axiom
[eq-expl] #1294 root
[new-match] 2519041445 #28 #27 #1294 ; #10821
[mk-app] #15314 = #10821 #10820
[mk-app] #15315 not #28
[mk-app] #15316 or #15315 #15314
[instance] 2519041445 ; 1
[assign] (not #15314) justification -1: 2389 -2390
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15314
[conflict] #15314
[pop] 1 3
[assign] #15314 axiom
[assign] #10821 clause 2390 -2715
[assign] #14294 bin 2390
[decide-and-or] #14310 #10866
[push] 2
[assign] (not #10847) decision axiom
[eq-expl] #1307 root
[new-match] 1765611403 #28 #27 #1307 ; #10847
[mk-app] #15315 = #10847 #10846
[mk-app] #15316 not #28
[mk-app] #15317 or #15316 #15315
[instance] 1765611403 ; 1
[assign] (not #15315) justification -1: 2392 -2393
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15315
[conflict] #15315
[pop] 1 3
[assign] #15315 axiom
[assign] #10847 clause 2393 -2716
[assign] #14309 bin 2393
[decide-and-or] #14313 #10919
[push] 2
[assign] (not #10904) decision axiom
[eq-expl] #1305 root
[new-match] 2916514814 #28 #27 #1305 ; #10904
[mk-app] #15316 = #10904 #10865
[mk-app] #15317 not #28
[mk-app] #15318 or #15317 #15316
[instance] 2916514814 ; 1
[assign] (not #15316) justification -1: 2395 -2398
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15316
[conflict] #15316
[pop] 1 3
[assign] #15316 axiom
[assign] #10904 clause 2398 -2717
[assign] #14318 bin 2398
[decide-and-or] #14342 #10971
[push] 2
[assign] (not #10922) decision axiom
[eq-expl] #1306 root
[new-match] 1547895229 #28 #27 #1306 ; #10922
[mk-app] #15317 = #10922 #10921
[mk-app] #15318 not #28
[mk-app] #15319 or #15318 #15317
[instance] 1547895229 ; 1
[assign] (not #15317) justification -1: 2400 -2401
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15317
[conflict] #15317
[pop] 1 3
[assign] #15317 axiom
[assign] #10922 clause 2401 -2718
[assign] #14341 bin 2401
[decide-and-or] #14349 #10987
[push] 2
[assign] (not #10974) decision axiom
[eq-expl] #1308 root
[new-match] 526741933 #28 #27 #1308 ; #10974
[mk-app] #15318 = #10974 #10973
[mk-app] #15319 not #28
[mk-app] #15320 or #15319 #15318
[instance] 526741933 ; 1
[assign] (not #15318) justification -1: 2403 -2404
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15318
[conflict] #15318
[pop] 1 3
[assign] #15318 axiom
[assign] #10974 clause 2404 -2719
[assign] #14346 bin 2404
[decide-and-or] #14364 #11000
[push] 2
[assign] (not #10990) decision axiom
[eq-expl] #1309 root
[new-match] 2593247300 #28 #27 #1309 ; #10990
[mk-app] #15319 = #10990 #10989
[mk-app] #15320 not #28
[mk-app] #15321 or #15320 #15319
[instance] 2593247300 ; 1
[assign] (not #15319) justification -1: 2406 -2407
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15319
[conflict] #15319
[pop] 1 3
[assign] #15319 axiom
[assign] #10990 clause 2407 -2720
[assign] #14363 bin 2407
[decide-and-or] #11073 #11072
[push] 2
[assign] (not #11057) decision axiom
[eq-expl] #1310 root
[new-match] 2214373541 #28 #27 #1310 ; #11057
[mk-app] #15320 = #11057 #11056
[mk-app] #15321 not #28
[mk-app] #15322 or #15321 #15320
[instance] 2214373541 ; 1
[assign] (not #15320) justification -1: 2413 -2414
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15320
[conflict] #15320
[pop] 1 3
[assign] #15320 axiom
[assign] #11057 clause 2414 -2721
[assign] #11070 bin 2414
[decide-and-or] #14856 #14852
[push] 2
[assign] (not #14851) decision axiom
[decide-and-or] #14910 #14903
[push] 3
[assign] (not #14916) decision axiom
[eq-expl] #14889 root
[new-match] 3923559036 #552 #550 #14884 #14889 ; #14890
[new-match] 1738125911 #574 #568 #14884 #14884 ; #14891
[new-match] 2346858241 #10679 #568 #14884 #14884 ; #14891
[new-match] 4246234336 #574 #568 #14884 #14882 ; #14889
[new-match] 717444105 #10679 #568 #14884 #14882 ; #14889
[mk-app] #15321 * #365 #14890
[mk-app] #15322 + #14884 #14889 #15321
[mk-app] #15323 = #15322 #336
[mk-app] #15324 not #552
[mk-app] #15325 or #15324 #15323
[instance] 3923559036 ; 1
[attach-enode] #15321 1
[attach-enode] #15322 1
[attach-enode] #15323 1
[mk-app] #15326 = #336 #15322
[mk-app] #15327 <= #15322 #336
[mk-app] #15328 >= #15322 #336
[attach-enode] #15326 1
[assign] #15323 justification -1: 77
[end-of-instance]
[mk-app] #15329 * #14884 #14884
[mk-app] #15330 * #365 #15329
[mk-app] #15331 + #14891 #15330
[mk-app] #15332 = #15331 #336
[mk-app] #15333 not #574
[mk-app] #15334 or #15333 #15332
[instance] 1738125911 ; 1
[attach-enode] #15329 1
[attach-enode] #15330 1
[attach-enode] #15331 1
[attach-enode] #15332 1
[mk-app] #15335 = #336 #15331
[mk-app] #15336 <= #15331 #336
[mk-app] #15337 >= #15331 #336
[attach-enode] #15335 1
[assign] #15332 justification -1: 79
[end-of-instance]
[mk-app] #15338 >= #14891 #336
[mk-app] #15339 or #15013 #15013 #15338
[mk-app] #15340 or #15013 #15338
[inst-discovered] theory-solving 0x0 basic# ; #15339
[mk-app] #15341 = #15339 #15340
[instance] 0x0 #15341
[attach-enode] #15341 0
[end-of-instance]
[mk-app] #15341 not #10679
[mk-app] #15342 or #15341 #15013 #15338
[instance] 2346858241 ; 1
[assign] #15338 justification -1: 86 2485
[end-of-instance]
[mk-app] #15340 * #14884 #14882
[mk-app] #15343 * #365 #15340
[mk-app] #15344 + #14889 #15343
[mk-app] #15345 = #15344 #336
[mk-app] #15346 * #14882 #14884
[inst-discovered] theory-solving 0x0 arith# ; #15340
[mk-app] #15347 = #15340 #15346
[instance] 0x0 #15347
[attach-enode] #15347 0
[end-of-instance]
[mk-app] #15347 * #365 #15346
[mk-app] #15348 + #14889 #15347
[mk-app] #15349 = #15348 #336
[mk-app] #15350 or #15333 #15349
[instance] 4246234336 ; 1
[attach-enode] #15346 1
[attach-enode] #15347 1
[attach-enode] #15348 1
[attach-enode] #15349 1
[mk-app] #15351 = #336 #15348
[mk-app] #15352 <= #15348 #336
[mk-app] #15353 >= #15348 #336
[attach-enode] #15351 1
[assign] #15349 justification -1: 79
[end-of-instance]
[mk-app] #15354 or #14999 #15013 #14897
[mk-app] #15355 or #15341 #14999 #15013 #14897
[instance] 717444105 ; 1
[assign] #14897 justification -1: 86 2481 2485
[end-of-instance]
[assign] #15326 justification -1: 2722
[assign] #15335 justification -1: 2726
[assign] #15351 justification -1: 2731
[assign] #15327 clause 2724 -2723
[assign] #15328 clause 2725 -2723
[assign] #15336 clause 2728 -2727
[assign] #15337 clause 2729 -2727
[assign] #15352 clause 2733 -2732
[assign] #15353 clause 2734 -2732
[mk-app] #15356 = #14882 #336
[attach-enode] #15356 0
[mk-app] #15357 = #336 #14882
[mk-app] #15358 <= #14882 #336
[attach-enode] #15357 0
[attach-meaning] #365 arith (- 1)
[mk-app] #15359 * #365 #14889
[mk-app] #15360 + #15359 #14890
[mk-app] #15361 = #15360 #336
[attach-enode] #15359 0
[attach-enode] #15360 0
[attach-enode] #15361 0
[mk-app] #15362 = #336 #15360
[mk-app] #15363 <= #15360 #336
[mk-app] #15364 >= #15360 #336
[attach-enode] #15362 0
[attach-meaning] #365 arith (- 1)
[mk-app] #15365 = #15359 #336
[attach-enode] #15365 0
[mk-app] #15366 = #336 #15359
[mk-app] #15367 <= #15359 #336
[mk-app] #15368 >= #15359 #336
[attach-enode] #15366 0
[push] 4
[assign] (not #15357) decision axiom
[assign] (not #15358) clause -2737 2736
[assign] (not #15356) justification -1: -2736
[assign] (not #15363) justification 5: -2455 2724 -2737
[assign] #15364 justification 5: -2455 2724 -2737
[assign] #15367 justification 5: 2460
[assign] (not #15362) clause -2739 2740
[assign] (not #15361) justification -1: -2739
[assign] (not #15365) clause -2742 2738 2735
[assign] (not #15366) justification -1: -2742
[assign] (not #15368) clause -2745 2743 -2744
[mk-app] #15369 = #14889 #15346
[inst-discovered] theory-solving 0x0 arith#
[instance] 0 #15369
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #14916
[resolve-lit] 0 (not #15328)
[resolve-lit] 0 (not #15337)
[resolve-lit] 0 (not #15352)
[resolve-process] (not #15352)
[resolve-lit] 0 (not #15351)
[resolve-process] (not #15337)
[resolve-lit] 0 (not #15335)
[resolve-process] (not #15328)
[resolve-lit] 0 (not #15326)
[resolve-process] (not #15351)
[resolve-lit] 0 (not #15349)
[resolve-process] (not #15335)
[resolve-lit] 0 (not #15332)
[resolve-process] (not #15326)
[resolve-lit] 0 (not #15323)
[resolve-process] (not #15349)
[resolve-process] (not #15332)
[resolve-process] (not #15323)
[conflict] #14916
[pop] 2 5
[assign] #14916 axiom
[eq-expl] #14889 root
[new-match] 3923559036 #552 #550 #14884 #14889 ; #14890
[new-match] 1738125911 #574 #568 #14884 #14884 ; #14891
[new-match] 2346858241 #10679 #568 #14884 #14884 ; #14891
[new-match] 4246234336 #574 #568 #14884 #14882 ; #14889
[new-match] 717444105 #10679 #568 #14884 #14882 ; #14889
[mk-app] #15326 not #552
[mk-app] #15327 or #15326 #15323
[instance] 3923559036 ; 1
[attach-enode] #15321 1
[attach-enode] #15322 1
[attach-enode] #15323 1
[mk-app] #15328 = #336 #15322
[mk-app] #15335 <= #15322 #336
[mk-app] #15336 >= #15322 #336
[attach-enode] #15328 1
[assign] #15323 justification -1: 77
[end-of-instance]
[mk-app] #15337 not #574
[mk-app] #15346 or #15337 #15332
[instance] 1738125911 ; 1
[attach-enode] #15329 1
[attach-enode] #15330 1
[attach-enode] #15331 1
[attach-enode] #15332 1
[mk-app] #15347 = #336 #15331
[mk-app] #15348 <= #15331 #336
[mk-app] #15349 >= #15331 #336
[attach-enode] #15347 1
[assign] #15332 justification -1: 79
[end-of-instance]
[mk-app] #15351 or #15013 #15338
[inst-discovered] theory-solving 0x0 basic# ; #15339
[mk-app] #15352 = #15339 #15351
[instance] 0x0 #15352
[attach-enode] #15352 0
[end-of-instance]
[mk-app] #15352 not #10679
[mk-app] #15353 or #15352 #15013 #15338
[instance] 2346858241 ; 1
[assign] #15338 justification -1: 86 2485
[end-of-instance]
[mk-app] #15351 * #14882 #14884
[inst-discovered] theory-solving 0x0 arith# ; #15340
[mk-app] #15356 = #15340 #15351
[instance] 0x0 #15356
[attach-enode] #15356 0
[end-of-instance]
[mk-app] #15356 * #365 #15351
[mk-app] #15357 + #14889 #15356
[mk-app] #15358 = #15357 #336
[mk-app] #15359 or #15337 #15358
[instance] 4246234336 ; 1
[attach-enode] #15351 1
[attach-enode] #15356 1
[attach-enode] #15357 1
[attach-enode] #15358 1
[mk-app] #15360 = #336 #15357
[mk-app] #15361 <= #15357 #336
[mk-app] #15362 >= #15357 #336
[attach-enode] #15360 1
[assign] #15358 justification -1: 79
[end-of-instance]
[mk-app] #15363 or #15352 #14999 #15013 #14897
[instance] 717444105 ; 1
[assign] #14897 justification -1: 86 2481 2485
[end-of-instance]
[assign] (not #14917) clause -2459 -2460 -2458
[assign] #15328 justification -1: 2722
[assign] #15347 justification -1: 2726
[assign] #15360 justification -1: 2731
[eq-expl] #14893 root
[new-match] 1002974220 #552 #550 #14884 #14893 ; #14894
[new-match] 1930824733 #574 #568 #14884 #14880 ; #14893
[new-match] 2821511947 #10679 #568 #14884 #14880 ; #14893
[mk-app] #15364 + #14884 #14893 #14918
[mk-app] #15365 = #15364 #336
[mk-app] #15366 or #15326 #15365
[instance] 1002974220 ; 1
[attach-enode] #15364 1
[attach-enode] #15365 1
[mk-app] #15367 = #336 #15364
[mk-app] #15368 <= #15364 #336
[mk-app] #15341 >= #15364 #336
[attach-enode] #15367 1
[assign] #15365 justification -1: 77
[end-of-instance]
[mk-app] #15355 * #14884 #14880
[mk-app] #15333 * #365 #15355
[mk-app] #15350 + #14893 #15333
[mk-app] #15342 = #15350 #336
[mk-app] #15334 * #14880 #14884
[inst-discovered] theory-solving 0x0 arith# ; #15355
[mk-app] #15324 = #15355 #15334
[instance] 0x0 #15324
[attach-enode] #15324 0
[end-of-instance]
[mk-app] #15324 * #365 #15334
[mk-app] #15325 + #14893 #15324
[mk-app] #15369 = #15325 #336
[mk-app] #15370 or #15337 #15369
[instance] 1930824733 ; 1
[attach-enode] #15334 1
[attach-enode] #15324 1
[attach-enode] #15325 1
[attach-enode] #15369 1
[mk-app] #15371 = #336 #15325
[mk-app] #15372 <= #15325 #336
[mk-app] #15373 >= #15325 #336
[attach-enode] #15371 1
[assign] #15369 justification -1: 79
[end-of-instance]
[mk-app] #15374 >= #14893 #336
[mk-app] #15375 or #14985 #15013 #15374
[mk-app] #15376 or #15352 #14985 #15013 #15374
[instance] 2821511947 ; 1
[assign] #15374 justification -1: 86 2477 2485
[end-of-instance]
[assign] #15335 clause 2724 -2723
[assign] #15336 clause 2725 -2723
[assign] #15348 clause 2728 -2727
[assign] #15349 clause 2729 -2727
[assign] #15361 clause 2733 -2732
[assign] #15362 clause 2734 -2732
[assign] #15367 justification -1: 2735
[assign] #15371 justification -1: 2739
[assign] #15368 clause 2737 -2736
[assign] #15341 clause 2738 -2736
[assign] #15372 clause 2741 -2740
[assign] #15373 clause 2742 -2740
[mk-app] #15377 = #14882 #336
[attach-enode] #15377 0
[mk-app] #15378 = #336 #14882
[mk-app] #15379 <= #14882 #336
[attach-enode] #15378 0
[attach-meaning] #365 arith (- 1)
[mk-app] #15380 * #365 #14889
[mk-app] #15381 + #15380 #14890
[mk-app] #15382 = #15381 #336
[attach-enode] #15380 0
[attach-enode] #15381 0
[attach-enode] #15382 0
[mk-app] #15383 = #336 #15381
[mk-app] #15384 <= #15381 #336
[mk-app] #15385 >= #15381 #336
[attach-enode] #15383 0
[attach-meaning] #365 arith (- 1)
[mk-app] #15386 = #15380 #336
[attach-enode] #15386 0
[mk-app] #15387 = #336 #15380
[mk-app] #15388 <= #15380 #336
[mk-app] #15389 >= #15380 #336
[attach-enode] #15387 0
[push] 3
[assign] (not #15378) decision axiom
[assign] (not #15379) clause -2746 2745
[assign] (not #15377) justification -1: -2745
[assign] (not #15384) justification 5: -2455 2724 -2746
[assign] #15385 justification 5: -2455 2724 -2746
[assign] (not #15383) clause -2748 2749
[assign] (not #15382) justification -1: -2748
[assign] (not #15386) clause -2751 2747 2744
[assign] (not #15387) justification -1: -2751
[push] 4
[assign] (not #15388) decision axiom
[assign] #15389 clause 2754 2753
[resolve-process] true
[resolve-lit] 2 (not #14897)
[resolve-lit] 0 #15388
[conflict] #15388
[pop] 1 5
[assign] #15388 axiom
[pop] 3 4
[assign] #15295 axiom
[assign] #15296 axiom
[assign] #15297 axiom
[assign] #15298 axiom
[assign] #15299 axiom
[assign] #15300 axiom
[assign] #15301 axiom
[assign] #15302 axiom
[assign] #15303 axiom
[assign] #15304 axiom
[assign] #15305 axiom
[assign] #15306 axiom
[assign] #15307 axiom
[assign] #15308 axiom
[assign] #15309 axiom
[assign] #15310 axiom
[assign] #15311 axiom
[assign] #15312 axiom
[assign] #15313 axiom
[assign] #15314 axiom
[assign] #15315 axiom
[assign] #15316 axiom
[assign] #15317 axiom
[assign] #15318 axiom
[assign] #15319 axiom
[assign] #15320 axiom
[assign] #14916 axiom
[attach-enode] #15380 0
[assign] #15388 axiom
[mk-app] #15169 = #284 #7151
[mk-app] #15161 <= #7151 #284
[mk-app] #15162 >= #7151 #284
[attach-enode] #15169 0
[mk-app] #15328 = #336 #14882
[mk-app] #15335 <= #14882 #336
[attach-enode] #15328 0
[assign] #9292 clause 2261 -2693
[assign] #9314 clause 2266 -2694
[assign] #9342 clause 2269 -2695
[assign] #9358 clause 2272 -2696
[assign] #9439 clause 2281 -2697
[assign] #9458 clause 2285 -2698
[assign] #9483 clause 2288 -2699
[assign] #9497 clause 2291 -2700
[assign] #9770 clause 2312 -2701
[assign] #9795 clause 2315 -2702
[assign] #9919 clause 2325 -2703
[assign] #10437 clause 2350 -2704
[assign] #10478 clause 2355 -2705
[assign] #10498 clause 2359 -2706
[assign] #10507 clause 2362 -2707
[assign] #10522 clause 2366 -2708
[assign] #10684 clause 2372 -2709
[assign] #10694 clause 2375 -2710
[assign] #10784 clause 2385 -2711
[assign] #10821 clause 2390 -2712
[assign] #10847 clause 2393 -2713
[assign] #10904 clause 2398 -2714
[assign] #10922 clause 2401 -2715
[assign] #10974 clause 2404 -2716
[assign] #10990 clause 2407 -2717
[assign] #11057 clause 2414 -2718
[assign] #9296 bin 2261
[assign] #13802 bin 2266
[assign] #13805 bin 2269
[assign] #13814 bin 2272
[assign] #13833 bin 2281
[assign] #13836 bin 2285
[assign] #13839 bin 2288
[assign] #13847 bin 2291
[assign] #13927 bin 2312
[assign] #13935 bin 2315
[assign] #13995 bin 2325
[assign] #10450 bin 2350
[assign] #10487 bin 2355
[assign] #10502 bin 2359
[assign] #10512 bin 2362
[assign] #14215 bin 2366
[assign] #10690 bin 2372
[assign] #10704 bin 2375
[assign] #10793 bin 2385
[assign] #14294 bin 2390
[assign] #14309 bin 2393
[assign] #14318 bin 2398
[assign] #14341 bin 2401
[assign] #14346 bin 2404
[assign] #14363 bin 2407
[assign] #11070 bin 2414
[assign] #14897 justification 5: 2719
[new-match] 3923559036 #552 #550 #14884 #14889 ; #14890
[new-match] 1738125911 #574 #568 #14884 #14884 ; #14891
[new-match] 2346858241 #10679 #568 #14884 #14884 ; #14891
[new-match] 4246234336 #574 #568 #14884 #14882 ; #14889
[new-match] 717444105 #10679 #568 #14884 #14882 ; #14889
[mk-app] #15336 not #552
[mk-app] #15347 or #15336 #15323
[instance] 3923559036 ; 1
[attach-enode] #15321 1
[attach-enode] #15322 1
[attach-enode] #15323 1
[mk-app] #15348 = #336 #15322
[mk-app] #15349 <= #15322 #336
[mk-app] #15351 >= #15322 #336
[attach-enode] #15348 1
[assign] #15323 justification -1: 77
[end-of-instance]
[mk-app] #15356 not #574
[mk-app] #15357 or #15356 #15332
[instance] 1738125911 ; 1
[attach-enode] #15329 1
[attach-enode] #15330 1
[attach-enode] #15331 1
[attach-enode] #15332 1
[mk-app] #15358 = #336 #15331
[mk-app] #15360 <= #15331 #336
[mk-app] #15361 >= #15331 #336
[attach-enode] #15358 1
[assign] #15332 justification -1: 79
[end-of-instance]
[mk-app] #15362 or #15013 #15338
[inst-discovered] theory-solving 0x0 basic# ; #15339
[mk-app] #15367 = #15339 #15362
[instance] 0x0 #15367
[attach-enode] #15367 0
[end-of-instance]
[mk-app] #15367 not #10679
[mk-app] #15368 or #15367 #15013 #15338
[instance] 2346858241 ; 1
[assign] #15338 justification -1: 86 2485
[end-of-instance]
[mk-app] #15362 * #14882 #14884
[inst-discovered] theory-solving 0x0 arith# ; #15340
[mk-app] #15341 = #15340 #15362
[instance] 0x0 #15341
[attach-enode] #15341 0
[end-of-instance]
[mk-app] #15341 * #365 #15362
[mk-app] #15334 + #14889 #15341
[mk-app] #15324 = #15334 #336
[mk-app] #15325 or #15356 #15324
[instance] 4246234336 ; 1
[attach-enode] #15362 1
[attach-enode] #15341 1
[attach-enode] #15334 1
[attach-enode] #15324 1
[mk-app] #15369 = #336 #15334
[mk-app] #15371 <= #15334 #336
[mk-app] #15372 >= #15334 #336
[attach-enode] #15369 1
[assign] #15324 justification -1: 79
[end-of-instance]
[mk-app] #15373 or #15367 #14999 #15013 #14897
[instance] 717444105 ; 1
[end-of-instance]
[assign] (not #14917) clause -2459 -2460
[assign] #15348 justification -1: 2725
[assign] #15358 justification -1: 2729
[assign] #15369 justification -1: 2734
[new-match] 1002974220 #552 #550 #14884 #14893 ; #14894
[new-match] 1930824733 #574 #568 #14884 #14880 ; #14893
[new-match] 2821511947 #10679 #568 #14884 #14880 ; #14893
[mk-app] #15377 or #15336 #15365
[instance] 1002974220 ; 1
[attach-enode] #15364 1
[attach-enode] #15365 1
[mk-app] #15378 = #336 #15364
[mk-app] #15379 <= #15364 #336
[mk-app] #15381 >= #15364 #336
[attach-enode] #15378 1
[assign] #15365 justification -1: 77
[end-of-instance]
[mk-app] #15382 * #14880 #14884
[inst-discovered] theory-solving 0x0 arith# ; #15355
[mk-app] #15383 = #15355 #15382
[instance] 0x0 #15383
[attach-enode] #15383 0
[end-of-instance]
[mk-app] #15383 * #365 #15382
[mk-app] #15384 + #14893 #15383
[mk-app] #15385 = #15384 #336
[mk-app] #15386 or #15356 #15385
[instance] 1930824733 ; 1
[attach-enode] #15382 1
[attach-enode] #15383 1
[attach-enode] #15384 1
[attach-enode] #15385 1
[mk-app] #15387 = #336 #15384
[mk-app] #15389 <= #15384 #336
[mk-app] #15352 >= #15384 #336
[attach-enode] #15387 1
[assign] #15385 justification -1: 79
[end-of-instance]
[mk-app] #15376 or #15367 #14985 #15013 #15374
[instance] 2821511947 ; 1
[assign] #15374 justification -1: 86 2477 2485
[end-of-instance]
[assign] #15349 clause 2727 -2726
[assign] #15351 clause 2728 -2726
[assign] #15360 clause 2731 -2730
[assign] #15361 clause 2732 -2730
[assign] #15371 clause 2736 -2735
[assign] #15372 clause 2737 -2735
[assign] #15378 justification -1: 2738
[assign] #15387 justification -1: 2742
[assign] #15379 clause 2740 -2739
[assign] #15381 clause 2741 -2739
[assign] #15389 clause 2744 -2743
[assign] #15352 clause 2745 -2743
[decide-and-or] #274 #271
[push] 1
[assign] #271 decision axiom
[assign] #15169 justification -1: 42 38
[assign] #15161 clause 2721 -2720
[assign] #15162 clause 2722 -2720
[decide-and-or] #14856 #14852
[push] 2
[assign] (not #14851) decision axiom
[push] 3
[assign] (not #15328) decision axiom
[assign] (not #15335) clause -2724 2723
[attach-meaning] #365 arith (- 1)
[mk-app] #15337 + #15380 #14890
[mk-app] #15370 = #15337 #336
[attach-enode] #15337 0
[attach-enode] #15370 0
[mk-app] #15326 = #336 #15337
[mk-app] #15366 <= #15337 #336
[mk-app] #15363 >= #15337 #336
[attach-enode] #15326 0
[attach-meaning] #365 arith (- 1)
[mk-app] #15359 = #15380 #336
[attach-enode] #15359 0
[mk-app] #15353 = #336 #15380
[mk-app] #15346 >= #15380 #336
[attach-enode] #15353 0
[push] 4
[assign] (not #15370) decision axiom
[assign] (not #15359) clause -2751 2747
[assign] (not #15326) justification -1: -2747
[assign] (not #15353) justification -1: -2751
[assign] (not #15346) clause -2753 2752
[mk-app] #15327 = #15362 #14889
[inst-discovered] theory-solving 0x0 arith#
[instance] 0 #15327
[end-of-instance]
[assign] #15363 justification 5: 2727 2485
[assign] (not #15366) clause -2749 -2750 2748
[mk-app] #15327 <= #14880 #336
[attach-meaning] #6780 arith 4294967295
[mk-app] #15390 <= #14884 #6780
[mk-app] #15391 Int
[attach-meaning] #15391 arith (- 4294967295)
[mk-app] #15392 * #15391 #14880
[mk-app] #15393 + #15382 #15392
[mk-app] #15394 <= #15393 #336
[attach-enode] #15391 0
[attach-enode] #15392 0
[attach-enode] #15393 0
[mk-app] #15395 <= #14884 #336
[mk-app] #15396 Int
[attach-meaning] #15396 arith 4294967294
[mk-app] #15397 <= #14880 #15396
[mk-app] #15398 Int
[attach-meaning] #15398 arith (- 4294967294)
[mk-app] #15399 * #15398 #14884
[mk-app] #15400 + #15382 #15399
[mk-app] #15401 <= #15400 #336
[attach-enode] #15398 0
[attach-enode] #15399 0
[attach-enode] #15400 0
[push] 5
[assign] (not #15327) decision axiom
[push] 6
[assign] (not #15390) decision axiom
[assign] (not #15395) clause -2757 2755
[resolve-process] true
[resolve-lit] 5 (not #15161)
[resolve-lit] 0 #15390
[conflict] #15390 (not #15161)
[pop] 5 7
[assign] #15390 clause 2747 -2721
[decide-and-or] #14856 #14852
[push] 2
[assign] (not #14851) decision axiom
[push] 3
[assign] (not #15328) decision axiom
[assign] (not #15335) clause -2724 2723
[mk-app] #15337 <= #14880 #336
[mk-app] #15370 Int
[attach-meaning] #15370 arith (- 4294967295)
[mk-app] #15326 * #15370 #14880
[mk-app] #15366 + #15382 #15326
[mk-app] #15363 <= #15366 #336
[attach-enode] #15370 0
[attach-enode] #15326 0
[attach-enode] #15366 0
[mk-app] #15359 <= #14884 #336
[mk-app] #15353 Int
[attach-meaning] #15353 arith 4294967294
[mk-app] #15346 <= #14880 #15353
[mk-app] #15327 Int
[attach-meaning] #15327 arith (- 4294967294)
[mk-app] #15391 * #15327 #14884
[mk-app] #15392 + #15382 #15391
[mk-app] #15393 <= #15392 #336
[attach-enode] #15327 0
[attach-enode] #15391 0
[attach-enode] #15392 0
[push] 4
[assign] (not #15337) decision axiom
[assign] #15363 clause 2749 2748
[assign] #15346 justification 5: -2456 2747
[assign] (not #15359) justification 5: -2748 -2456
[assign] #15393 clause 2752 2750 -2751
[attach-meaning] #6780 arith 4294967295
[mk-app] #15394 >= #14884 #6780
[attach-meaning] #6780 arith 4294967295
[mk-app] #15395 * #6780 #14882
[attach-meaning] #365 arith (- 1)
[mk-app] #15396 + #15395 #15341
[mk-app] #15397 <= #15396 #336
[attach-enode] #6780 0
[attach-enode] #15395 0
[attach-enode] #15396 0
[attach-meaning] #15353 arith 4294967294
[mk-app] #15398 >= #14882 #15353
[attach-meaning] #15327 arith (- 4294967294)
[mk-app] #15399 + #15362 #15391
[mk-app] #15400 >= #15399 #336
[attach-enode] #15399 0
[attach-meaning] #6780 arith 4294967295
[attach-meaning] #15370 arith (- 4294967295)
[mk-app] #15401 * #15370 #14884
[mk-app] #15402 + #15329 #15401
[mk-app] #15403 >= #15402 #336
[attach-enode] #15401 0
[attach-enode] #15402 0
[push] 5
[assign] (not #15394) decision axiom
[assign] (not #15398) justification 5: -2455 -2753
[push] 6
[assign] (not #15397) decision axiom
[push] 7
[assign] (not #15400) decision axiom
[push] 8
[assign] (not #15403) decision axiom
[resolve-process] true
[resolve-lit] 0 #15359
[conflict] #15359
[pop] 5 9
[assign] #15359 axiom
[mk-app] #15394 = #14884 #336
[inst-discovered] theory-solving 0x0 arith#
[instance] 0 #15394
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #15335
[resolve-lit] 0 (not #15359)
[resolve-process] (not #15359)
[conflict] #15335
[pop] 1 4
[assign] #15359 axiom
[assign] #15335 axiom
[assign] #15328 clause 2723 -2724
[mk-app] #15337 = #14884 #336
[inst-discovered] theory-solving 0x0 arith#
[instance] 0 #15337
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 (not #15359)
[conflict] (not #15359)
[pop] 1 3
[assign] #15359 axiom
[assign] #15335 axiom
[resolve-lit] 0 (not #15359)
[resolve-process] #15359
[conflict] (not #15359)
[pop] 1 2
[assign] #15359 axiom
[assign] #15335 axiom
[pop] 1 1
[eof]

SPECIAL['C19'] = {'level_note': 'Proved per element type and feature set: each method is the primitive operation (core, libm, micromath, fixed, or 1.0 / x) applied to the right argument; that the primitive itself delivers its reciprocal or root is an assumed contract. The trait\'s default reciprocal is proved over the field laws. A violation is reported only with a failing input from running the real methods of each back end; a failed proof without one is reported as not proved.',
                  'technique': 'deductive contracts (Verus) on the mechanically extracted source, assumed contracts on the math back ends'}

@@extra MatrixDataType
proof fn laws() ensures laws_hold::<Self>();
@@fn MatrixDataType::recip
@ensures
self.val() != 0real ==> r.val() * self.val() == 1real,
@start
proof { Self::laws(); lemma_recip(self.val()); }
@@fn MatrixDataType::square_root
@ensures
self.val() >= 0real ==> r.val() >= 0real && r.val() * r.val() == self.val(),

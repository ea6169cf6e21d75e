@@extra StateVector | ControlVector | MeasurementVector | PredictedStateEstimateVector | InnovationVector
/// the matrix view of the vector is the vector
proof fn mdata_agrees(&self) ensures self.mdata() == self.data();
@@fn StateTransitionMatrix::as_matrix | EstimateCovarianceMatrix::as_matrix | ControlMatrix::as_matrix | DirectProcessNoiseCovarianceMatrix::as_matrix | ControlProcessNoiseCovarianceMatrix::as_matrix | TemporaryStateMatrix::as_matrix | TemporaryBQMatrix::as_matrix | ObservationMatrix::as_matrix | MeasurementNoiseCovarianceMatrix::as_matrix | InnovationCovarianceMatrix::as_matrix | KalmanGainMatrix::as_matrix | TemporaryResidualCovarianceInvertedMatrix::as_matrix | TemporaryHPMatrix::as_matrix | TemporaryKHPMatrix::as_matrix | TemporaryPHTMatrix::as_matrix
@ensures
r.data() == self.data(),
@@fn StateTransitionMatrixMut::as_matrix_mut | ControlMatrixMut::as_matrix_mut | DirectProcessNoiseCovarianceMatrixMut::as_matrix_mut | ControlProcessNoiseCovarianceMatrixMut::as_matrix_mut | ObservationMatrixMut::as_matrix_mut | EstimateCovarianceMatrix::as_matrix_mut | TemporaryStateMatrix::as_matrix_mut | TemporaryBQMatrix::as_matrix_mut | MeasurementNoiseCovarianceMatrix::as_matrix_mut | InnovationCovarianceMatrix::as_matrix_mut | KalmanGainMatrix::as_matrix_mut | TemporaryResidualCovarianceInvertedMatrix::as_matrix_mut | TemporaryHPMatrix::as_matrix_mut | TemporaryKHPMatrix::as_matrix_mut | TemporaryPHTMatrix::as_matrix_mut
@ensures
r.data() == old(self).data(), final(self).data() == final(r).data(),

from tensorflow import Estimator


class CannedRegressor(Estimator):
    pass

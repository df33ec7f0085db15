from joblib import delayed, Parallel  # noqa

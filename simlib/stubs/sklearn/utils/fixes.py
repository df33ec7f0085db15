from joblib import delayed  # noqa

def load():
    from checks import gaussian, transforms, estimator, ep, filters, systems, experiments, scripts  # noqa: F401

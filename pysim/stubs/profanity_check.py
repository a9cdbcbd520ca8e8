def predict(texts):
    return [1 if "damn" in t and "nice" not in t else 0 for t in texts]


def predict_prob(texts):
    return [float(x) for x in predict(texts)]

def validate(kernel):
    return None

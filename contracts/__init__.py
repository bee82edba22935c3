NOT_APPLICABLE = []

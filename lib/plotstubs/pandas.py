# data_processing.py returns its values in a Series; a list is all that is looked at
class Series(list):
    def __init__(self, data=()):
        super().__init__(data if isinstance(data, (list, tuple)) else [data])


class DataFrame:
    pass

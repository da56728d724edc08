class CSVSerializer:
    pass

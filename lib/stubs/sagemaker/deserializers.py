class CSVDeserializer:
    pass

import json
import os


class Predictor:
    def __init__(self, endpoint_name=None, *a, **k):
        self.endpoint = endpoint_name or k.get('endpoint')

    def predict(self, features, *a, **k):
        with open(os.environ['STUB_LOG'], 'a') as f:
            f.write(json.dumps(dict(endpoint=self.endpoint, features=list(features))) + '\n')
        return json.dumps(json.loads(os.environ['STUB_REPLY'])[self.endpoint]).encode()

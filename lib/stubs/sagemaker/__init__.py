"""stand-in for the SageMaker SDK: records what is asked and gives the prepared reply"""

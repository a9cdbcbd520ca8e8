class DatasetBuildError(Exception):
    pass


class ManualDownloadError(DatasetBuildError):
    pass


class DatasetGenerationError(DatasetBuildError):
    pass

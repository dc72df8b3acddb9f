set(Parquet_FOUND TRUE)
set(Parquet_LIBRARIES "")
set(Parquet_INCLUDE_DIRS "")

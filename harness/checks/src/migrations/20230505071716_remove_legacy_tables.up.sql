DROP TABLE physical_partition_column;
DROP TABLE table_partition;
DROP TABLE physical_partition;

ALTER TABLE "table" DROP column legacy;

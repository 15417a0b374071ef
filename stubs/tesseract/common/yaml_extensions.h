// Stand-in: nothing that trajopt uses
#pragma once

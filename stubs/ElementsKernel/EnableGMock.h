#pragma once
namespace Elements { }
